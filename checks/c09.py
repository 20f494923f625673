"""C09: function calls report every argument under the right parameter."""

from vlib.ast import Call, Id, Int, Str
from vlib import big
from vlib.common import DocCheck, place, walk
from vlib.gen import TYPICAL
from vlib.tables import KNOWN_NAMES, arity, namespace

# what the arguments of these stand for depends on their number alone, not on what they look like
RESOURCE = [n for n in KNOWN_NAMES if "esource" in n or n in ("reference", "pickZones", "subscription", "managementGroup")]


class C09(DocCheck):
    id = "C09"
    rule = (
        "Calls of every documented built-in (weighted evenly, all allowed argument counts, plus up to 12 variadic arguments, with and without "
        "namespace) and of unknown names near them, arguments being distinct markers, falsy literals or nested expressions, placed anywhere; "
        "compared with an independent table of parameter positions. Non-trivial: a call with at least one argument."
    )
    assumptions = ["built-ins are called with an argument count Bicep allows", "the parameter names are those of docs/capabilities.md, typing.py and the tests"]
    big = staticmethod(big.calls)
    quick_cases = 24000
    thorough_cases = 800000

    def decls(self, src, g):
        g.fuel = src.pick([3, 10, 30])
        g.max_depth = src.pick([1, 2, 3, 4])
        out = []
        for _ in range(src.int(1, 2)):
            r = src.n(12)
            if r < 9:
                base = src.pick(KNOWN_NAMES if src.n(4) else RESOURCE)
                lo, hi = arity(base)
                if hi is None:
                    hi = lo + src.weighted([(1, 2), (3, 2), (9, 1)])
                n = src.int(lo, hi) if src.n(2) else min(hi, src.int(lo, lo + 2))
                name = base if src.n(3) < 2 else f"{namespace(base)}.{base}"
            else:
                c = g.call(0)
                name = c.name
                n = len(c.args) if name.split(".")[-1] in KNOWN_NAMES else g.size(0, 14)
            style = src.n(5)
            args = []
            for i in range(n):
                if style == 0:
                    args.append(src.pick([lambda i=i: Str(f"a{i}"), lambda i=i: Id(f"v{i}"), lambda i=i: Int(str(i))])())
                elif style == 4:
                    args.append(Str(src.pick(TYPICAL[:12] if src.n(2) else TYPICAL)) if src.n(3) else g.arg(1))
                elif style == 1:
                    args.append(g.falsy() if src.n(2) else Id(f"v{i}"))
                else:
                    args.append(g.arg(1))
            out.append(place(g, Call(name, args)))
        return out

    def labels(self, decls):
        out = set()
        for n in walk(decls):
            if isinstance(n, Call) and n.args:
                base = n.name.split(".")[-1]
                known = base in KNOWN_NAMES and (n.name == base or n.name == f"{namespace(base)}.{base}")
                out.add("built-in" if known else "other name")
                if known and n.name != base:
                    out.add("with namespace")
                if known:
                    out.add(f"fn:{base}")
                if len(n.args) > 5:
                    out.add("6+ arguments")
                if any(isinstance(a, Call) for a in n.args):
                    out.add("nested call")
        return out


CHECK = C09()
