"""C01: a parse depends only on its own input, never on earlier calls."""

import os
import sys
from pathlib import Path

from vlib import target
from vlib.ast import doc_model, doc_tokens
from vlib.common import render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G
from vlib.syntax import Canonical, render
from vlib.values import dec, diff, enc

from .c20 import BROKEN

PARSERS = [(False, True), (True, True), (False, True), (True, False)]  # (line numbers, grammar cache); several instances


def wreck(value, how):
    """Changes a result in place as a careless caller might."""
    stack = [value]
    while stack:
        v = stack.pop()
        if isinstance(v, dict):
            stack.extend(v.values())
            if how == 0:
                v.clear()
            elif how == 1:
                v["__start_line__"] = "x"
                v["added"] = v.get("value")
            elif how == 2:
                for k in list(v):
                    v[k] = None
            else:
                for k in reversed(list(v)):
                    v[k + "_"] = v.pop(k)
        elif isinstance(v, list):
            stack.extend(v)
            if how == 0:
                v.clear()
            elif how == 1:
                v.append("added")
            elif how == 2:
                v[:] = [None] * (len(v) + 1)
            else:
                v.reverse()
                v.extend(v[:1])


FAULTS = [KeyboardInterrupt, MemoryError, RecursionError, SystemExit]


def interrupted(fn, text, at, fault):
    """Calls `fn`, which `fault` hits at its `at`-th line in pycep or call in lark; what becomes of this call is not judged."""
    roots = target.roots()
    left = at
    hit = False

    def local(frame, event, arg):
        nonlocal left, hit
        if event == "line" and not hit:
            left -= 1
            if left <= 0:
                hit = True
                raise fault()
        return local

    def trace(frame, event, arg):
        nonlocal left, hit
        name = frame.f_code.co_filename
        if hit:
            return None
        if name.startswith(roots[0]):
            return local
        if name.startswith(roots[1]):
            left -= 1
            if left <= 0:
                hit = True
                raise fault()
        return None

    before = sys.gettrace()
    sys.settrace(trace)
    try:
        fn(text=text)
    except (Exception, KeyboardInterrupt, SystemExit):
        pass
    finally:
        sys.settrace(before)
    return "interrupted" if hit else "late"


class C01(Check):
    id = "C01"
    rule = (
        "Histories of 2..40 (sometimes up to 400) operations over 2..6 related documents (near-duplicates of equal length, joined, prefixed and "
        "ill-formed variants included) and 5 parser instances: parse text, parse a file (rewritten in between, same size and modification time), "
        "create_tree, failing parse, a call hit by an exception (KeyboardInterrupt, MemoryError...) at a generated line, modify an earlier result. Every result is compared with the reference model at once and, unless the "
        "caller modified it, again at the end; errors and trees of one document must never differ. Non-trivial: a document parsed again after another operation."
    )
    assumptions = ["documents are valid or ill-formed by construction"]
    quick_cases = 3200
    thorough_cases = 100000

    def setup(self):
        self.parsers = [target.load()["BicepParser"](add_line_numbers=a, cache=c) for a, c in PARSERS]
        self.parsers.append(target.parser(False))
        self.lines = [a for a, _ in PARSERS] + [False]

    def gen(self, src, tier):
        g = G(src, tier=tier)
        long = src.n(12) == 11
        g.fuel = 6 if long else src.pick([6, 15, 40])
        docs = []

        def add(decls):
            text, spans, _ = render_doc(src, decls)
            docs.append({"text": text, "expected": enc(doc_model(decls)), "lines": enc(doc_model(decls, spans))})

        def decls(n):
            if long:
                g.max_depth = 1
            return [g.decl() for _ in range(n)]

        first = decls(src.int(1, 2) if long else src.int(1, 4))
        add(first)
        for _ in range(src.int(1, 5)):
            k = src.n(6)
            if k == 0:
                g.fuel = 10
                add(decls(src.int(1, 3)))
            elif k == 1:
                # near-duplicate: one character of the conventional text changed
                value = src.pick(["'a'", "'b'", "1", "2", "true", "null", "a", "b"])
                other = {"'a'": "'c'", "'b'": "'a'", "1": "7", "2": "3", "true": "null", "null": "true", "a": "z", "b": "a"}[value]
                from vlib.ast import Bool, Id, Int, Null, Str, Var

                def lit(x):
                    if x[0] == "'":
                        return Str(x[1:-1])
                    return Int(x) if x.isdigit() else Bool(True) if x == "true" else Null() if x == "null" else Id(x)

                at = src.int(0, len(first))
                pad = Var([], "pad", Str("p" * src.pick([0, 1, 100, 300, 5000])))
                before, after = (src.pick([[], [pad]]), src.pick([[], [pad]])) if src.n(2) else ([pad], [pad])
                if src.n(3) == 2:
                    # differs in one character of a long run
                    n = src.pick([40, 300, 5000])
                    k = src.n(n)
                    value, other = (f"'{'r' * k}{c}{'r' * (n - k - 1)}'" for c in "xy")
                for x in (value, other):
                    d = [*before, *first[:at], Var([], "tail", lit(x)), *first[at:], *after]
                    text, spans = render(doc_tokens(d), Canonical(), "", "\n")
                    docs.append({"text": text, "expected": enc(doc_model(d)), "lines": enc(doc_model(d, spans))})
            elif k == 2:
                add(first + decls(1))
            elif k == 3:
                add(first[:-1] if len(first) > 1 else [])
            elif k == 4:
                docs.append({"text": docs[0]["text"] + "\n" + src.pick(BROKEN), "reject": True})
            else:
                docs.append({"text": src.pick(BROKEN) + src.pick(["", "\n"]), "reject": True})
        n = g.size(100, 400) if long and src.n(3) == 2 else src.int(2, 40)
        ops = []
        for _ in range(n):
            op = src.weighted([("parse", 20), ("file", 6), ("tree", 2), ("wreck", 4), ("interrupt", 3)])
            if op == "wreck":
                ops.append([op, src.n(8), src.n(4)])
            elif op == "interrupt":
                at = src.int(1, src.pick([3, 10, 40, 150, 500, 2000]))
                ops.append([op, src.n(len(docs)), src.n(len(PARSERS) + 1), at, src.n(len(FAULTS)), src.n(4) == 3])
            else:
                ops.append([op, src.n(len(docs)), src.n(len(PARSERS) + 1)])
        return {"docs": docs, "ops": ops}

    def check(self, value, doc, lines, what):
        d = diff(value, dec(doc["lines" if lines else "expected"]), target.load()["BicepElement"])
        if d:
            raise Violation(f"{what}: {d}\n--- document\n{shown(doc['text'])}")

    def run(self, case, ctx):
        docs = case["docs"]
        path = Path(os.environ["VERIF_SCRATCH"]) / f"c01-{os.getpid()}.bicep"
        kept = []  # (value, doc, lines, step)
        errors, trees = {}, {}
        used = set()
        again = False
        for step, (op, i, j, *fault) in enumerate(case["ops"]):
            if op == "wreck":
                if kept:
                    value = kept.pop(-1 - (i % len(kept)))[0]
                    wreck(value, j)
                    ctx.label("modified result")
                continue
            doc, parser, lines = docs[i], self.parsers[j], self.lines[j]
            text = doc["text"]
            what = f"step {step} ({op}, parser {j})"
            if op == "interrupt":
                at, kind, tree = fault
                out = interrupted(parser.create_tree if tree else parser.parse, text, at, FAULTS[kind])
                if out is not None:
                    ctx.label("call interrupted" if out == "interrupted" else "interruption too late")
                continue
            if op == "tree":
                out = target.call(parser.create_tree, text=text)
                key = out.value if out.ok else target.error_key(out.exc)
                if trees.setdefault(i, (out.ok, key)) != (out.ok, key):
                    raise Violation(f"{what}: create_tree differs from an earlier call on the same document\n--- document\n{shown(text)}")
                if not doc.get("reject") and not out.ok:
                    raise Violation(f"{what}: create_tree refuses a valid document: {out.describe()}\n--- document\n{shown(text)}")
                continue
            if op == "file":
                # an older time stamp on purpose: a stale cache keyed by name, size or time would show
                path.write_bytes(text.encode())
                os.utime(path, (1_000_000_000, 1_000_000_000))
                if "\r" in text:
                    continue  # reading a file normalises line breaks; C03 covers that
                out = target.call(parser.parse, file_path=path)
            else:
                out = target.call(parser.parse, text=text)
            if i in used:
                again = True
            used.add(i)
            if doc.get("reject"):
                if out.ok:
                    raise Violation(f"{what}: ill-formed document accepted\n--- document\n{shown(text)}")
                if op == "parse":
                    key = target.error_key(out.exc)
                    if errors.setdefault(i, key) != key:
                        raise Violation(f"{what}: error {key!r} instead of {errors[i]!r}\n--- document\n{shown(text)}")
                ctx.label("failing parse")
                continue
            if not out.ok:
                raise Violation(f"{what}: valid document rejected with {out.describe()}\n--- document\n{shown(text)}")
            self.check(out.value, doc, lines, what)
            kept.append((out.value, doc, lines, step))
            ctx.label(f"parse via {op}")
        for value, doc, lines, step in kept:
            self.check(value, doc, lines, f"result of step {step}, looked at again at the end")
        if len(case["ops"]) > 99:
            ctx.label("100+ operations")
        return again


CHECK = C01()
