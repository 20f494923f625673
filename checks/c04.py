"""C04: every declaration is reported once, under its kind, name and source order."""

from vlib import big
from vlib.common import DocCheck
from vlib.gen import G, uniquify


class C04(DocCheck):
    id = "C04"
    rule = (
        "Documents of 0..60 declarations of all 12 kinds (names biased towards few, keyword-like and source-dictionary names; "
        "duplicates on purpose) with small values, rendered in conventional or random layout and compared with the reference model "
        "(sections, names, order, attributes). Non-trivial: at least two declarations."
    )
    assumptions = ["the declaration semantics in vlib/ast.py are the intended ones (derived from docs, typing.py and the existing tests)"]
    big = staticmethod(big.declarations)
    quick_cases = 20000
    thorough_cases = 600000

    shape = "big"

    def decls(self, src, g):
        shape = src.weighted([("few", 6), ("many", 4), ("kind", 4), ("same-name", 3)])
        self.shape = shape
        g.max_depth = src.pick([1, 1, 2, 3])
        if shape == "few":
            g.fuel = 40
            return [g.decl() for _ in range(src.int(0, 5))]
        if shape == "many":
            g.fuel = 30
            n = g.size(3, 60)
            used = set()
            out = []
            for _ in range(n):
                d = g.decl()
                if src.n(4):
                    uniquify(d, used)
                out.append(d)
            return out
        if shape == "kind":
            g.fuel = 30
            kinds = [src.pick([k for k, _ in G.KINDS])]
            if src.n(2):
                kinds.append(src.pick([k for k, _ in G.KINDS]))
            return [g.decl(kind=src.pick(kinds)) for _ in range(src.int(1, 12))]
        g.fuel = 30
        names = [g.name() for _ in range(2)]
        return [g.decl(name=src.pick(names)) for _ in range(src.int(2, 12))]

    def labels(self, decls):
        out = {f"kind:{type(d).__name__}" for d in decls}
        out.add(f"shape:{self.shape}")
        seen = set()
        for d in decls:
            k = (type(d).__name__, getattr(d, "name", None))
            if k in seen:
                out.add("duplicate")
            seen.add(k)
        if len(decls) >= 10:
            out.add("10+ declarations")
        if len(decls) >= 30:
            out.add("30+ declarations")
        return out if len(decls) > 1 else []


CHECK = C04()
