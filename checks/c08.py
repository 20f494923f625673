"""C08: arrays and objects keep every item, in order, at any nesting and size."""

from vlib.ast import Arr, Object, Var
from vlib import big
from vlib.common import DocCheck, place, walk


class C08(DocCheck):
    id = "C08"
    rule = (
        "Arrays and objects of 0..300 items nested up to 12 deep (keys plain, quoted, interpolated, keyword-like, repeated), with comma, "
        "line-break and comment separators, placed anywhere a value can stand; compared including item and key order. "
        "Non-trivial: a container with at least two items or nested containers."
    )
    assumptions = ["two internal key names (depends_on on nested resources, __child_resource__) are not generated"]
    big = staticmethod(big.containers)
    quick_cases = 16000
    thorough_cases = 500000

    def container(self, g, d, n=None):
        s = g.s
        if n is None:
            n = g.size(0, 40) if s.n(10) == 9 else s.int(0, 5)
        items = []
        for _ in range(n):
            if g.fuel > 0 and d < self.depth and s.n(2):
                g.fuel -= 1
                items.append(self.container(g, d + 1))
            else:
                items.append(g.atom() if s.n(6) else g.expr(self.depth - 1))
        if s.n(2):
            return Arr(items)
        pairs, keys = [], set()
        for i, v in enumerate(items):
            k = g.key()
            if k in keys and s.n(3):
                k = f"key{i}"
            keys.add(k)
            pairs.append((k, v, False))
        return Object(pairs)

    def decls(self, src, g):
        self.depth = src.weighted([(2, 4), (4, 4), (8, 1), (12, 1)])
        g.fuel = src.pick([4, 10, 20])
        g.max_depth = self.depth + 1
        if src.n(40) == 39:
            # one wide container
            n = src.pick([64, 100, 127, 128, 129, 255, 256, 257, 300])
            g.fuel = 0
            return [Var([], "wide", self.container(g, 0, n))]
        out = []
        for _ in range(src.int(1, 2)):
            c = self.container(g, 0)
            out.append(place(g, c) if src.n(2) else Var([], "v", c))
        return out

    def labels(self, decls):
        out = set()
        for n in walk(decls):
            if isinstance(n, (Arr, Object)):
                items = n.items if isinstance(n, Arr) else n.pairs
                kind = type(n).__name__
                if len(items) >= 2:
                    out.add(f"{kind} 2+")
                if len(items) >= 10:
                    out.add(f"{kind} 10+")
                if len(items) >= 60:
                    out.add(f"{kind} 60+")
                if n.depth > 3:
                    out.add("depth 3+")
                if n.depth > 8:
                    out.add("depth 8+")
                if isinstance(n, Object) and len({k for k, _, _ in items}) < len(items):
                    out.add("repeated key")
        return out


CHECK = C08()
