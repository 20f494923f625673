"""C23: size and depth of a document do not break parsing."""

import gc
import statistics
import time

from vlib import target
from vlib.common import shown
from vlib.engine import Check, Violation
from vlib.values import El, same, diff

# CPU seconds allowed for `size` characters: about two orders of magnitude above what the parser needs
ALLOW_BASE, ALLOW_PER_CHAR = 20.0, 0.002


# a document SCALE times as long may take at most SLACK * SCALE times as long
SCALE, SLACK = 64, 2.2


def op(kind, **operands):
    return {"operator": {"type": kind, "operands": operands}}


def fn(kind, **params):
    return {"function": {"type": kind, "parameters": params}}


def build(shape, n, leaf):
    """(text, builder of the expected value) of a value nested or repeated n times; everything iterative."""
    t, v = {"id": ("a", El("a")), "str": ("'s'", "s"), "int": ("1", 1), "mstr": ("'''m'''", "m")}[leaf]

    def wrap(pre, post, mk):
        val = v
        for _ in range(n):
            val = mk(val)
        return pre * n + t + post * n, val

    def wide(pre, items, sep, post, val):
        return pre + sep.join(items) + post, val

    if shape == "deep array":
        return wrap("[", "]", lambda x: [x])
    if shape == "deep array, own lines":
        return wrap("[\n", "\n]", lambda x: [x])
    if shape == "deep object":
        return wrap("{k:", "}", lambda x: {"k": x})
    if shape == "deep object, own lines":
        return wrap("{\n k: ", "\n}", lambda x: {"k": x})
    if shape == "deep call":
        return wrap("f(", ")", lambda x: fn("f", arg_1=x))
    if shape == "deep built-in":
        return wrap("toLower(", ")", lambda x: fn("to_lower", string_to_change=x))
    if shape == "deep parentheses":
        return wrap("(", ")", lambda x: x)
    if shape == "deep not":
        return wrap("!", "", lambda x: op("not", bool_value=x))
    if shape == "deep right operators":
        return wrap("b + ", "", lambda x: op("add", operand_1=El("b"), operand_2=x))
    if shape == "deep left operators":
        return wrap("(", " && c)", lambda x: op("and", operand_1=x, operand_2=El("c")))
    if shape == "deep conditional":
        return wrap("c ? d : ", "", lambda x: op("conditional", condition=El("c"), true_value=El("d"), false_value=x))
    if shape == "deep chain":
        return wrap("p.", "" if leaf == "id" else "", lambda x: op("property_accessor", operand_1=El("p"), operand_2=x))
    if shape == "deep index":
        return wrap("p[", "]", lambda x: op("index_accessor", operand_1=El("p"), operand_2=x))
    if shape == "long index":
        val = El("p")
        for _ in range(n):
            val = op("index_accessor", operand_1=val, operand_2=v)
        return "p" + f"[{t}]" * n, val
    if shape == "deep lambda":
        return wrap("f(x => ", ")", lambda x: fn("f", arg_1={"type": "lambda_expression", "detail": {"var_1": "x", "expression": x}}))
    if shape == "deep loop":
        mk = lambda x: {"k": {"loop_type": {"type": "array", "detail": {"item_name": "i", "array_name": El("l")}}, "condition": None, "config": x}}  # noqa: E731
        return wrap("{k: [for i in l: ", "]}", mk)
    if shape == "deep mixed":
        return wrap("[{k: f((", "))}]", lambda x: [{"k": fn("f", arg_1=x)}])
    if shape == "wide array":
        return wide("[", [t] * n, ",", "]", [v] * n)
    if shape == "wide array, lines":
        return wide("[\n", [t] * n, "\n", "\n]", [v] * n)
    if shape == "wide object":
        return wide("{\n", [f"k{i}: {t}" for i in range(n)], "\n", "\n}", {f"k{i}": v for i in range(n)})
    if shape == "wide call":
        return wide("f(", [t] * n, ", ", ")", fn("f", **{f"arg_{i + 1}": v for i in range(n)}))
    if shape == "wide concat":
        return wide("concat(", [t] * n, ",", ")", fn("concat", **{f"arg_{i + 1}": v for i in range(n)}))
    if shape == "long string":
        body = "abc ${x} // \\' ${f('y')}" * n
        return f"'{body}'", body
    if shape == "long multi-line string":
        body = "line 'x' ${y} //\n" * n
        return f"'''{body}'''", body
    if shape == "long integer":
        return "7" * min(n, 4000), int("7" * min(n, 4000))
    if shape == "long name":
        return "n" * n, El("n" * n)
    if shape == "deep interpolation":
        body = "${'" * n + "x" + "'}" * n
        return f"'{body}'", body
    if shape == "comments":
        return "[\n" + "// it's { a ( comment\n/* and ' another */\n" * n + t + "\n]", [v]
    if shape == "blank lines":
        return "[" + "\n" * n + t + " " * n + "\n" * n + "]", [v]
    raise AssertionError(shape)


DEEP = [
    "deep array", "deep array, own lines", "deep object", "deep object, own lines", "deep call", "deep built-in", "deep parentheses", "deep not", "deep right operators",
    "deep left operators", "deep conditional", "deep chain", "deep index", "long index", "deep lambda", "deep loop", "deep mixed", "deep interpolation",
]
WIDE = ["wide array", "wide array, lines", "wide object", "wide call", "wide concat", "long string", "long multi-line string", "long integer", "long name", "comments", "blank lines"]
DOCS = ["declarations", "decorators", "children", "union", "array type", "function parameters", "imports", "lambda parameters"]
# repeated fragments of (nearly) valid text
FRAGMENTS = [
    "'", "'${", "${'", "'\\", "\\'", "'''", "''", "{", "[", "(", "f(", "a.", "a[", "[for a in ", "(a,", "@a(", "/*", "//", "#", "'${'", "{a:", "a ? ", "!", "-", "a::", "a.listKeys(", "'a${b}", "'$", "'${a}",
    "'{", "x.y(", "a=>", "(a, b) => ", "\n", " ", "\t", "\r\n", "\\", "$", "az.", "sys.", "list", "getSecret", "a.b['c'].", "'\\${", "'''a", "|", "string[", "(string|", "1", "a", "_", "'a' ", "[a ", "{a:1 ", "a,", ",",
    "a!", "?", ".?", "[?", "resource a 'b' = {", "if (", "'${{", "}", "'}", "items(", "range(", "/* '", "// '\n", "'a'\n", "''' ", "'a''",
]


class C23(Check):
    id = "C23"
    watch_hangs = True
    shards = 8
    rule = (
        "Every nestable construct nested 20..400 (thorough: 2000) levels deep, every repeatable one repeated up to 3000 (thorough: 30000) times, large documents, compared with an "
        "independently built expectation; and texts made of 1..3 fragments repeated up to 400 times behind a valid or broken start, which must be "
        "answered (result or documented error). Python's default recursion limit applies to the parser; CPU time must stay below 20 s + 2 ms per character. "
        "Non-trivial: more than 200 characters."
    )
    assumptions = ["the CPU allowance is about 100 times what the unchanged parser needs, so a slow machine cannot fail the check"]
    quick_cases = 1600
    thorough_cases = 24000

    def setup(self):
        target.parser(False)
        target.parser(True)

    def gen(self, src, tier):
        big = tier == "thorough"
        k = src.weighted([("deep", 6), ("wide", 3), ("doc", 4), ("near", 10)])
        if k == "deep":
            shape = src.pick(DEEP)
            n = src.pick([20, 50, 100, 150, 200, 250, 300, 400, 1100] + ([600, 1000, 2000] if big else []))
            return {"family": k, "shape": shape, "n": n + src.n(10), "leaf": "id" if shape == "deep chain" else src.pick(["id", "str", "int"]), "lines": src.n(2)}
        if k == "wide":
            n = src.pick([20, 100, 256, 1000, 3000] + ([10000, 30000] if big else []))
            return {"family": k, "shape": src.pick(WIDE), "n": n + src.n(10), "leaf": src.pick(["id", "str", "int", "mstr"]), "lines": src.n(2)}
        if k == "doc":
            n = src.pick([10, 30, 100, 300, 1100] + ([1000, 3000] if big else []))
            return {"family": k, "shape": src.pick(DOCS), "n": n + src.n(10), "lines": src.n(2)}
        frags = [src.pick(FRAGMENTS) for _ in range(src.weighted([(1, 4), (2, 4), (3, 1)]))]
        return {
            "family": k, "frags": frags, "n": src.pick([10, 20, 40, 100, 400] + ([1000, 4000] if big else [])), "pre": src.pick(["var x = ", "", "var x = [\n", "var x = {\n a: ", "param x ", "@d(", "resource r 'a@b' = {\n", "var x = '"]),
            "post": src.pick(["", "'", "\n", "}'", "]", "'''", "a", "$", ")"]),
        }

    def fixed(self, tier):
        cases = []
        for family, shapes in (("deep", DEEP), ("wide", WIDE), ("doc", DOCS)):
            for shape in shapes:
                if shape not in ("long integer", "children"):
                    n = {"declarations": 3000, "long multi-line string": 60000, "long name": 500000, "blank lines": 60000, "deep loop": 16000, "deep mixed": 24000}.get(shape, 40000)
                    cases.append({"family": family, "shape": shape, "n": n * (4 if tier == "thorough" else 1), "leaf": "id" if shape == "deep chain" else "str", "scale": SCALE})
        return cases

    def scale(self, case, ctx):
        """Is the time for a document roughly SCALE times that of one 1/SCALE as large?"""
        texts = [self.document({**case, "n": n})[0] for n in (case["n"] // case["scale"], case["n"])]

        def cpu(text):
            # without the garbage collector, whose passes depend on all that is alive
            gc.collect()
            gc.disable()
            try:
                t0 = time.process_time()
                out = target.parse(text)
                t = time.process_time() - t0
            finally:
                gc.enable()
            if not out.ok:
                raise Violation(f"{case['shape']} x {case['n']}: valid document rejected with {out.describe()}\n--- text\n{shown(text, 400)}")
            return t

        times = [min(cpu(texts[0]) for _ in range(3)), cpu(texts[1])]
        factor = len(texts[1]) / len(texts[0])
        for _ in range(3):
            # a slow moment of the machine cannot last through all of these
            if times[1] <= SLACK * factor * max(times[0], 0.01):
                break
            times = [statistics.median([times[0], cpu(texts[0]), cpu(texts[0])]), min(times[1], cpu(texts[1]))]
        else:
            raise Violation(
                f"{case['shape']}: {times[0]:.3f} CPU seconds for {len(texts[0])} characters, but {times[1]:.2f} for {len(texts[1])}"
            )
        ctx.label("scaling", case["shape"])
        return True

    def document(self, case):
        """(text, expected result)."""
        n, shape = case["n"], case["shape"]
        g = {"globals": {"scope": {"value": "resourceGroup"}}}
        if case["family"] != "doc":
            t, v = build(shape, n, case["leaf"])
            return f"var x = {t}\n", {**g, "variables": {"x": {"decorators": [], "value": v}}}
        if shape == "declarations":
            parts, r = [], {**g, "parameters": {}, "variables": {}, "outputs": {}}
            for i in range(n):
                parts.append(f"// number {i}\n@description('d{i}')\nparam p{i} string = 'v{i}'\nvar v{i} = [\n  p{i}\n  {i}\n]\noutput o{i} int = v{i}[1]\n")
                r["parameters"][f"p{i}"] = {"decorators": [{"type": "description", "argument": f"d{i}"}], "type": "string", "default": f"v{i}"}
                r["variables"][f"v{i}"] = {"decorators": [], "value": [El(f"p{i}"), i]}
                r["outputs"][f"o{i}"] = {"decorators": [], "type": "int", "value": op("index_accessor", operand_1=El(f"v{i}"), operand_2=1)}
            return "\n".join(parts), r
        if shape == "decorators":
            return "".join(f"@foo({i})\n" for i in range(n)) + "param x int\n", {**g, "parameters": {"x": {"decorators": [{"type": "foo", "argument": i} for i in range(n)], "type": "int", "default": None}}}
        if shape == "children":
            n = min(n, 400)
            text = "resource r 'A/b@1' = {\n" + "".join(f"resource c{i} 's{i}' = {{\n p: {i}\n" for i in range(n)) + "}\n" * (n + 1)
            r = {"r": {"decorators": [], "type": "A/b", "api_version": "1", "existing": False, "config": {}}}
            name, typ = "r", "A/b"
            for i in range(n):
                parent, name, typ = name, f"{name}__c{i}", f"{typ}/s{i}"
                r[name] = {"decorators": [], "type": typ, "api_version": "1", "existing": False, "config": {"p": i, "depends_on": [El(parent)]}}
            return text, {**g, "resources": r}
        if shape == "union":
            return f"param x ({' | '.join(f't{i}' for i in range(n))})\n", {**g, "parameters": {"x": {"decorators": [], "type": {"type": "union", "members": [f"t{i}" for i in range(n)]}, "default": None}}}
        if shape == "array type":
            t = "string"
            for _ in range(n):
                t = {"type": "array", "item_type": t}
            return "param x string" + "[]" * n + "\n", {**g, "parameters": {"x": {"decorators": [], "type": t, "default": None}}}
        if shape == "function parameters":
            return f"func f({', '.join(f'p{i} string' for i in range(n))}) int => p0\n", {
                **g, "functions": {"f": {"decorators": [], "args": {f"p{i}": "string" for i in range(n)}, "type": "int", "expression": El("p0")}},
            }
        if shape == "imports":
            return f"import {{{', '.join(f'n{i} as a{i}' for i in range(n))}}} from 'x.bicep'\n", {**g, "imports": {f"n{i}": {"file_path": "x.bicep", "alias": f"a{i}"} for i in range(n)}}
        return f"var x = f(({', '.join(f'p{i}' for i in range(n + 2))}) => p0)\n", {
            **g, "variables": {"x": {"decorators": [], "value": fn("f", arg_1={"type": "lambda_expression", "detail": {**{f"var_{i + 1}": f"p{i}" for i in range(n + 2)}, "expression": El("p0")}})}},
        }

    def run(self, case, ctx):
        if "scale" in case:
            return self.scale(case, ctx)
        if case["family"] == "near":
            text = case["pre"] + "".join(case["frags"]) * case["n"] + case["post"]
            expected = None
        else:
            text, expected = self.document(case)
        lines = bool(case.get("lines"))
        t0 = time.process_time()
        out = target.parse(text, lines)
        cpu = time.process_time() - t0
        what = f"{case.get('shape') or case['frags']} x {case['n']}"
        allowed = ALLOW_BASE + ALLOW_PER_CHAR * len(text)
        if cpu > allowed:
            raise Violation(f"{what}: {cpu:.1f} CPU seconds for {len(text)} characters (allowed {allowed:.1f})\n--- text\n{shown(text, 400)}")
        if expected is None:
            if not out.ok and not target.documented_error(out.exc):
                raise Violation(f"{what}: undocumented {out.describe()}\n--- text\n{shown(text, 400)}")
        elif not out.ok:
            raise Violation(f"{what}: valid document rejected with {out.describe()}\n--- text\n{shown(text, 400)}")
        else:
            value = out.value
            if lines:
                value = strip_lines(value)
            d = diff(value, expected, target.load()["BicepElement"])
            if d:
                raise Violation(f"{what}: {d}\n--- text\n{shown(text, 400)}")
        if case["n"] <= 1300 and len(text) < 30000:
            # the indentation makes the size of the tree's text quadratic in the depth
            tree = target.tree(text)
            if tree.ok != out.ok and (out.ok or not isinstance(out.exc, target.load()["lark"].exceptions.VisitError)):
                raise Violation(f"{what}: parse: {out.describe()}; create_tree: {tree.describe()}\n--- text\n{shown(text, 400)}")
            if tree.ok and (not isinstance(tree.value, str) or not tree.value.startswith("start")):
                raise Violation(f"{what}: create_tree returned {str(tree.value)[:100]!r}\n--- text\n{shown(text, 400)}")
            if not tree.ok and not target.documented_error(tree.exc):
                raise Violation(f"{what}: create_tree: undocumented {tree.describe()}\n--- text\n{shown(text, 400)}")
            ctx.label("create_tree")
        ctx.label(case["family"] + (" accepted" if out.ok else " rejected"))
        if case["family"] != "near":
            ctx.label(case["shape"])
        if case["n"] >= 200:
            ctx.label("200+ levels or repetitions")
        return len(text) > 200


def strip_lines(result):
    out = {}
    for sec, entries in result.items():
        out[sec] = {}
        for name, attrs in entries.items():
            attrs = dict(attrs)
            a, b = attrs.pop("__start_line__", None), attrs.pop("__end_line__", None)
            if not isinstance(a, int) or not isinstance(b, int) or a > b:
                raise Violation(f"{sec}.{name}: lines {a}..{b}")
            out[sec][name] = attrs
    return out


CHECK = C23()
