"""C10: decorators stay with their declaration, in order, with their argument."""

from vlib.ast import Deco, Int, Un
from vlib import big
from vlib.common import DocCheck
from vlib.tables import DECOS


class C10(DocCheck):
    id = "C10"
    rule = (
        "Documents of 1..6 declarations with 0..12 decorators each (documented and unknown names, with and without sys., arguments of every "
        "kind incl. negative integers, multi-line strings, nested values, falsy literals), undecorated declarations in between. "
        "Non-trivial: at least one decorator with an argument or two decorators."
    )
    assumptions = ["documented decorators are given exactly the argument they take"]
    big = staticmethod(big.decorators)
    quick_cases = 20000
    thorough_cases = 600000

    def decls(self, src, g):
        g.fuel = src.pick([5, 15, 40])
        out = []
        kinds = [("var", 3), ("param", 5), ("resource", 2), ("module", 2), ("output", 3), ("type", 2), ("func", 2), ("meta", 1), ("import", 1)]
        for _ in range(src.int(1, 6)):
            d = g.decl(kinds=kinds, child_depth=1)
            if type(d).__name__ not in ("Meta", "Import"):
                d.decos = [g.deco() for _ in range(src.weighted([(0, 3), (1, 4), (2, 3), (3, 2), (g.size(0, 12), 2)]))]
            out.append(d)
        return out

    def labels(self, decls):
        out = set()
        for d in decls:
            ds = d.decos
            if len(ds) > 1:
                out.add("2+ decorators")
            if len(ds) > 5:
                out.add("6+ decorators")
            for x in ds:
                if x.arg is not None:
                    base = x.name.removeprefix("sys.")
                    out.add(f"deco:{base}" if base in DECOS else "unknown with argument")
                    if isinstance(x.arg, Un):
                        out.add("negative/negated argument")
        if any(d.decos for d in decls) and any(not d.decos for d in decls):
            out.add("decorated and undecorated")
        return out


CHECK = C10()
