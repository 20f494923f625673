"""C13: nested child resources are reported as resources of their own."""

from vlib.ast import Child, IfBody, Loop, Object, Resource, doc_model, inner_object
from vlib import big
from vlib.common import DocCheck, render_doc, shown
from vlib.engine import Violation
from vlib.values import dec, diff, enc
from vlib import target


def drop_shadowed(decls):
    """The documents' model when of several children directly in one body only the last survives (known finding)."""
    for d in decls:
        if isinstance(d, Resource):
            _drop(d.body_node)
    return decls


def _drop(body):
    o = inner_object(body)
    if o.children:
        order = sorted(range(len(o.children)), key=lambda i: o.children[i][0])
        o.children = [o.children[order[-1]]]
        _drop(o.children[0][1].body_node)


class C13(DocCheck):
    id = "C13"
    rule = (
        "Resources (plain, looped, conditional) holding child resources 1..8 levels deep, at any position among the parent's properties, with "
        "plain, looped and conditional bodies, API versions of their own or inherited, existing flags and sometimes several children per body, next to other declarations; compared "
        "with the reference model (names, joined types, versions, depends_on, bodies), with and without line numbers. "
        "Non-trivial: a child resource."
    )
    assumptions = ["children carry no decorators (the grammar has no place for them)"]
    big = staticmethod(big.children)
    quick_cases = 20000
    thorough_cases = 600000

    def child(self, g, d, names):
        s = g.s
        n = g.name()
        if s.n(8) == 7:
            # a name made of (parts of) those of the resources around
            n = s.pick(self.above) + s.pick(["__", "__", "_", ""]) + s.pick([n, "c", s.pick(self.above)])
        while n in names:
            n += "2"
        names.add(n)
        self.above.append(n)
        c = Child(n, g.child_type(), s.n(4) == 3, self.body(g, d))
        self.above.pop()
        return c

    def body(self, g, d):
        """A resource body with `d` more levels of children below it."""
        s = g.s
        o = g.mimic(1) if s.n(10) == 9 else g.object(1, n=s.int(0, 4))
        if d > 0:
            names = set()
            for _ in range(2 if s.n(12) == 11 else 1):
                o.children.append((s.int(0, len(o.pairs)), self.child(g, d - 1, names)))
            o.children.sort(key=lambda c: c[0])
        k = s.weighted([("plain", 6), ("loop", 2), ("if", 2)])
        if k == "loop":
            return g.loop(0, body=o)
        if k == "if":
            return IfBody(g.expr(1), o)
        return o

    def decls(self, src, g):
        g.fuel = src.pick([6, 15, 30])
        g.max_depth = src.pick([1, 2, 3])
        out = []
        for _ in range(src.weighted([(1, 5), (2, 3), (3, 1)])):
            if src.n(5) == 4:
                out.append(g.decl(kinds=[("var", 1), ("resource", 1), ("module", 1)], child_depth=0))
            depth = src.weighted([(1, 5), (2, 4), (3, 2), (0, 1), (8, 1)])
            name = g.name()
            self.above = [name]
            out.append(Resource(g.decos(1), name, g.res_type(), g.version(), src.n(4) == 3, self.body(g, depth)))
        return out

    def gen(self, src, tier):
        g = self.grammar(src, tier)
        decls = self.decls(src, g)
        text, spans, _ = render_doc(src, decls)
        case = {"text": text, "expected": enc(doc_model(decls)), "expected_lines": enc(doc_model(decls, spans))}
        case["labels"] = sorted(self.labels(decls))
        if "siblings" in case["labels"]:
            drop_shadowed(decls)
            case["known"] = enc(doc_model(decls))
            case["known_lines"] = enc(doc_model(decls, spans))
        return case

    def labels(self, decls):
        out = set()

        def rec(body, depth):
            o = inner_object(body)
            if len(o.children) > 1:
                out.add("siblings")
            for _, c in o.children:
                out.add(f"level {min(depth, 4)}{'+' if depth >= 4 else ''}")
                if isinstance(body, Loop):
                    out.add("child of a loop")
                elif isinstance(body, IfBody):
                    out.add("child of a condition")
                if isinstance(c.body_node, (Loop, IfBody)):
                    out.add("looped/conditional child")
                if c.existing:
                    out.add("existing child")
                rec(c.body_node, depth + 1)

        for d in decls:
            if isinstance(d, Resource):
                rec(d.body_node, 1)
        return out

    def run(self, case, ctx):
        for lines, want, known in ((False, "expected", "known"), (True, "expected_lines", "known_lines")):
            out = target.parse(case["text"], lines)
            if not out.ok:
                raise Violation(f"valid document rejected with {out.describe()}\n--- document\n{shown(case['text'])}")
            el = target.load()["BicepElement"]
            d = diff(out.value, dec(case[want]), el)
            if d:
                listed = known in case and diff(out.value, dec(case[known]), el) is None
                raise Violation(
                    f"{d} (line numbers {'on' if lines else 'off'})\n--- document\n{shown(case['text'])}",
                    known="sibling-children" if listed else None,
                )
        ctx.label(*case["labels"])
        return bool(case["labels"])


CHECK = C13()
