"""C12: accessor chains report every step of the path."""

from vlib.ast import Bang, Call, FAcc, Id, Idx, Int, Prop, Str
from vlib import big
from vlib.common import DocCheck, place, walk


class C12(DocCheck):
    id = "C12"
    rule = (
        "Accessor chains of 1..30 steps (property, safe dereference, index, safe index, nested resource, list*/getSecret with 0..6 arguments, "
        "method-like calls, null-forgiving marks) over identifiers, calls and parenthesised bases, names near list*/getSecret included, placed "
        "anywhere. Non-trivial: at least two steps."
    )
    assumptions = ["list*/getSecret accessors directly follow the base expression; they may carry indexes"]
    big = staticmethod(big.accessors)
    quick_cases = 20000
    thorough_cases = 600000

    NAMES = ["id", "name", "properties", "listX", "lists", "list", "getSecret", "getSecrets", "List", "outputs", "value", "getThing", "listKeys", "x"]

    def pname(self, g):
        s = g.s
        return s.pick(self.NAMES) if s.n(2) else g.name(value=True)

    def base(self, g):
        s = g.s
        r = s.n(8)
        if r < 5:
            b = Id(g.name(value=True))
        elif r < 7:
            b = g.call(g.max_depth - 1)
        else:
            b = g.par(g.max_depth - 1)
        return self.suffix(g, b, 2)

    def suffix(self, g, b, most, forgive=True):
        s = g.s
        for _ in range(s.weighted([(0, 5), (1, 3), (most, 1)])):
            b = Idx(b, self.index(g), safe=s.n(4) == 3)
        if forgive and s.n(12) == 11:
            b = Bang(b)
        return b

    def index(self, g):
        s = g.s
        return s.pick([lambda: Int(g.digits()), lambda: Str(g.raw()), lambda: Id(g.name(value=True)), lambda: g.expr(g.max_depth - 1)])()

    def step(self, g):
        s = g.s
        if s.n(4) == 3:
            b = g.call(g.max_depth - 1, member=True)
        else:
            b = Id(self.pname(g))
        return self.suffix(g, b, 2)

    def chain(self, g, n):
        s = g.s
        base = self.base(g)
        if s.n(4) == 3:
            if isinstance(base, Bang):
                base = base.inner
            base = FAcc(base, s.pick(g.ACC_NAMES), [g.arg(g.max_depth - 1) for _ in range(g.size(0, 6))])
            base = self.suffix(g, base, 1)
        if n == 0:
            return base
        nested = s.n(5) == 4
        steps = [self.step(g) for _ in range(n)]
        # right-nested chain; a trailing function access belongs to the last step
        last = steps[-1]
        if s.n(5) == 4 and not isinstance(last, Bang):
            steps[-1] = FAcc(last, s.pick(g.ACC_NAMES), [g.arg(g.max_depth - 1) for _ in range(s.int(0, 3))])
        r = steps[-1]
        for st in reversed(steps[:-1]):
            r = Prop(st, r, safe=s.n(5) == 4)
        if nested:
            if n == 1 and isinstance(r, FAcc):
                r = r.base
            if isinstance(base, FAcc):
                base = base.base
            return Prop(base, Prop(Id("kid"), r) if s.n(2) else Id("kid"), nested=True)
        return Prop(base, r, safe=s.n(5) == 4)

    def decls(self, src, g):
        g.fuel = src.pick([3, 10, 30])
        g.max_depth = src.pick([1, 2, 3])
        n = src.weighted([(1, 3), (2, 4), (3, 3), (6, 2), (g.size(1, 30), 1)])
        out = []
        for _ in range(src.int(1, 2)):
            out.append(place(g, self.chain(g, n), depth=src.pick([0, 0, 1, 2])))
        return out

    def labels(self, decls):
        out = set()
        steps = 0
        for n in walk(decls):
            if isinstance(n, Prop):
                steps += 1
                out.add("nested resource" if n.nested else "safe property" if n.safe else "property")
            elif isinstance(n, Idx):
                steps += 1
                out.add("safe index" if n.safe else "index")
            elif isinstance(n, FAcc):
                steps += 1
                out.add("function access")
                if len(n.args) > 1:
                    out.add("function access 2+ arguments")
        if steps > 9:
            out.add("10+ steps")
        return out if steps > 1 else []


CHECK = C12()
