"""C11: operators report their operands completely and on the right side."""

from vlib.ast import Bang, Bin, Cond, OPS, Par, Un
from vlib import big
from vlib.common import DocCheck, place, walk


class C11(DocCheck):
    id = "C11"
    rule = (
        "Expression trees over all 19 operators (parenthesised left sides, unparenthesised right nesting, null-forgiving marks, operands of all "
        "kinds, up to 12 deep) placed anywhere a value can stand, compared with the right-nesting reference model. "
        "Non-trivial: at least one operator with a composite operand."
    )
    assumptions = ["operators have no precedence in this parser: the right side of a binary operator extends as far as possible (pinned by the existing tests)"]
    big = staticmethod(big.operators)
    quick_cases = 20000
    thorough_cases = 600000

    def tree(self, g, d):
        s = g.s
        if d <= 0:
            return g.atom() if s.n(4) else g.closed(g.max_depth - 1)
        k = s.weighted([("bin", 8), ("cond", 3), ("un", 3), ("par", 1)])
        if k == "bin":
            return Bin(s.pick(list(OPS)), self.left(g, d), self.tree(g, d - s.int(1, 2)))
        if k == "cond":
            return Cond(self.left(g, d), self.tree(g, d - s.int(1, 3)), self.tree(g, d - s.int(1, 3)))
        if k == "un":
            return Un(s.pick(["-", "!"]), self.tree(g, d - 1))
        return Par(self.tree(g, d - 1))

    def left(self, g, d):
        s = g.s
        r = s.n(8)
        if r < 3:
            return g.atom()
        if r < 5:
            return Par(self.tree(g, d - s.int(1, 3)))
        if r < 7:
            return g.closed(g.max_depth - 1)
        return Bang(g.reference(g.max_depth - 1))

    def decls(self, src, g):
        depth = src.weighted([(1, 4), (2, 4), (4, 3), (7, 1), (12, 1)])
        g.fuel = src.pick([4, 12, 40])
        g.max_depth = src.pick([1, 2, 3])
        out = []
        for _ in range(src.int(1, 2)):
            t = self.tree(g, depth)
            out.append(place(g, t, depth=src.pick([0, 0, 1, 2])))
        return out

    def labels(self, decls):
        out = set()
        for n in walk(decls):
            if isinstance(n, Bin):
                if n.right.depth > 1 or n.left.depth > 1:
                    out.add(f"op:{OPS[n.op]}")
                if isinstance(n.left, Par):
                    out.add("parenthesised left side")
                if isinstance(n.right, Bin):
                    out.add("operator chain")
            elif isinstance(n, Cond):
                out.add("conditional")
            elif isinstance(n, Un) and n.arg.depth > 1:
                out.add("op:minus" if n.op == "-" else "op:not")
            elif isinstance(n, Bang):
                out.add("null-forgiving")
        return out


CHECK = C11()
