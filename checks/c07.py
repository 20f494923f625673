"""C07: references are distinguishable from strings everywhere."""

from vlib.ast import Arr, Id, MStr, Object, Str
from vlib import big
from vlib.common import DocCheck, place, walk


class C07(DocCheck):
    id = "C07"
    rule = (
        "A random identifier (ordinary, keyword-like, prefix of a keyword, from the source dictionary) and the string and multi-line string "
        "of the same spelling, placed side by side or separately 0..6 constructs deep in any kind of declaration; type and text of every leaf "
        "are compared. Non-trivial: the document contains both an identifier and a string as values."
    )
    assumptions = ["true/false/null, and for/if/items/resource directly as values, are not used as identifiers"]
    big = staticmethod(big.literals)
    quick_cases = 24000
    thorough_cases = 800000

    def decls(self, src, g):
        g.fuel = 10
        out = []
        for _ in range(src.int(1, 3)):
            n = g.name(value=True)
            forms = [Id(n), Str(n), Id(n), MStr(n)]
            k = src.n(6)
            if k == 0:
                out.append(place(g, Id(n)))
                out.append(place(g, Str(n)))
            elif k == 1:
                out.append(place(g, Arr(src.shuffle(forms)[: src.int(1, 4)])))
            elif k == 2:
                keys = [n, "'" + n + "'", n + "2"]
                out.append(place(g, Object([(kk, src.pick(forms), False) for kk in src.shuffle(keys)])))
            elif k == 3:
                out.append(place(g, src.pick([g.prop, g.index, g.facc, g.binary, g.call, g.lam])(0)))
            elif k == 4:
                out.append(place(g, src.pick(forms)))
            else:
                out.append(g.decl(name=n))
        return out

    def labels(self, decls):
        kinds = {type(n).__name__ for n in walk(decls)}
        if "Id" not in kinds or not kinds & {"Str", "MStr"}:
            return []
        out = {f"decl:{type(d).__name__}" for d in decls}
        ids = {n.name for n in walk(decls) if isinstance(n, Id)}
        if ids & {n.raw for n in walk(decls) if isinstance(n, (Str, MStr))}:
            out.add("same spelling")
        if any(n.lower().startswith(("true", "false", "null", "for", "if", "in", "sys", "az", "list", "items")) for n in ids):
            out.add("keyword-like")
        return out


CHECK = C07()
