"""C17: line numbers give each declaration's true position."""

from vlib import target
from vlib.ast import Child, Deco, Loop, MStr, Var, doc_model, doc_tokens
from vlib import big
from vlib.common import DocCheck, render_doc, shown, walk
from vlib.engine import Violation
from vlib.gen import uniquify
from vlib.syntax import render
from vlib.values import dec, diff, enc


class C17(DocCheck):
    id = "C17"
    rule = (
        "Documents of 1..8 declarations (children, decorators, imports, multi-line strings, nested values) in random LF and CRLF layouts with "
        "blank lines and comments before, between and after; the renderer records where every declaration begins and ends and the reported "
        "lines must be those; the same document is parsed without line numbers, too. Non-trivial: some declaration does not start on line 1."
    )
    assumptions = ["lines are separated by LF or CRLF"]
    big = staticmethod(big.everything)
    quick_cases = 16000
    thorough_cases = 500000

    def decls(self, src, g):
        g.fuel = src.pick([8, 20, 60])
        used = set()
        out = []
        for _ in range(src.weighted([(1, 4), (2, 4), (3, 3), (g.size(1, 8), 2)])):
            d = g.decl(child_depth=3)
            if src.n(6):
                uniquify(d, used)
            out.append(d)
        return out

    def gen(self, src, tier):
        g = self.grammar(src, tier)
        decls = self.decls(src, g)
        text, spans, layout = render_doc(src, decls, src.weighted([("random", 6), ("crlf", 3), ("canonical", 2)]))
        case = {"text": text, "expected": enc(doc_model(decls)), "expected_lines": enc(doc_model(decls, spans))}
        labels = {"CRLF" if "\r\n" in text else "LF"}
        if any(s > 1 for s, _ in spans.values()):
            labels.add("later line")
        if any(e - s >= 5 for s, e in spans.values()):
            labels.add("5+ lines long")
        for n in walk(decls):
            if isinstance(n, Child):
                labels.add("child")
            elif isinstance(n, Deco):
                labels.add("decorated")
            elif isinstance(n, Loop):
                labels.add("loop")
            elif isinstance(n, MStr) and "\n" in n.raw:
                labels.add("multi-line string")
        labels |= {f"kind:{type(d).__name__}" for d in decls}
        case["labels"] = sorted(labels)
        return case

    def fixed(self, tier):
        return [*super().fixed(tier), *(lambda x=x: self.far_case(*x) for x in big.layouts())]

    def far_case(self, name, layout, begin, end):
        decls = big.sampler()
        if "CRLF" not in name:
            decls.insert(5, Var([], "multi", MStr("line\n" * 70000)))
        text, spans = render(doc_tokens(decls), layout, begin, end)
        return {"text": text, "expected": enc(doc_model(decls)), "expected_lines": enc(doc_model(decls, spans)), "labels": ["later line", name]}

    def run(self, case, ctx):
        el = target.load()["BicepElement"]
        for lines, want in ((True, "expected_lines"), (False, "expected")):
            out = target.parse(case["text"], lines)
            if not out.ok:
                raise Violation(f"valid document rejected with {out.describe()}\n--- document\n{shown(case['text'])}")
            d = diff(out.value, dec(case[want]), el)
            if d:
                raise Violation(f"{d} (line numbers {'on' if lines else 'off'})\n--- document\n{shown(case['text'])}")
        ctx.label(*case["labels"])
        return "later line" in case["labels"]


CHECK = C17()
