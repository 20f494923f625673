"""C16: types, function signatures, lambdas, imports and extensions keep their structure."""

from vlib.ast import Call, Extension, Func, Import, Lam, NsImport, Output, Param, TArr, TName, TUnion, TypeDecl, Var
from vlib import big
from vlib.common import DocCheck, place, walk


class C16(DocCheck):
    id = "C16"
    rule = (
        "Parameters, outputs and variables with nested array/union types, custom types (objects with nullable members, unions, references), "
        "functions with 0..12 typed parameters, lambdas with 1..10 parameters in argument positions, imports with 1..12 names and aliases, "
        "wildcard and namespace imports, extensions with config and alias; compared with the reference model. "
        "Non-trivial: a composite type, signature, lambda, import or extension."
    )
    assumptions = ["imports are keyed by the imported name (pinned by the existing tests)", "unions of literal types are reported as one joined string (pinned by the existing tests)"]
    big = staticmethod(big.types)
    quick_cases = 20000
    thorough_cases = 600000

    def dtype(self, g, d):
        s = g.s
        if d <= 0 or s.n(5) == 0:
            return TName(s.pick(["string", "int", "bool", "object", "array", "any"]) if s.n(2) else g.name())
        if s.n(2):
            return TArr(self.dtype(g, d - 1))
        return TUnion([self.dtype(g, d - 1) for _ in range(s.weighted([(2, 4), (3, 2), (g.size(2, 10), 1)]))])

    def decls(self, src, g):
        g.fuel = src.pick([6, 15, 40])
        g.max_depth = src.pick([1, 2, 3])
        out = []
        for _ in range(src.weighted([(1, 4), (2, 3), (4, 1)])):
            k = src.n(10)
            name = g.name()
            depth = src.weighted([(1, 3), (3, 3), (6, 1)])
            if k == 0:
                out.append(Param(g.decos(1), name, self.dtype(g, depth), src.n(3) == 2, g.atom() if src.n(2) else None))
            elif k == 1:
                out.append(Output(g.decos(1), name, self.dtype(g, depth), src.n(3) == 2, g.expr(1)))
            elif k == 2:
                out.append(Var(g.decos(1), name, g.expr(1), self.dtype(g, depth), src.n(3) == 2))
            elif k == 3:
                params, seen = [], set()
                for _ in range(g.size(0, 12)):
                    p = g.name()
                    if p not in seen:
                        seen.add(p)
                        params.append((p, self.dtype(g, src.int(0, 3))))
                out.append(Func(g.decos(1), name, params, self.dtype(g, depth), g.expr(1, lam=False)))
            elif k in (4, 5):
                lam = Lam([g.name(value=True) for _ in range(g.size(1, 10))], g.expr(1), src.n(2) == 1)
                f = src.pick(["map", "filter", "sort", "reduce", "toObject", "foo", "sys.map"])
                args = [g.atom(), lam]
                if f == "reduce":
                    args.insert(1, g.atom())
                if f == "toObject" and src.n(2):
                    args.append(Lam([g.name(value=True)], g.expr(1), src.n(2) == 1))
                out.append(place(g, Call(f, args), depth=src.pick([0, 0, 1, 2])))
            else:
                out.append(g.decl(kind=["type", "import", "nsimport", "extension"][k - 6], name=name))
        return out

    def labels(self, decls):
        out = set()
        for n in walk(decls):
            t = type(n).__name__
            if isinstance(n, (TArr, TUnion, Func, Lam, Import, NsImport, Extension, TypeDecl)):
                out.add(t)
            if isinstance(n, Lam) and len(n.params) > 1:
                out.add("lambda 2+ parameters")
            if isinstance(n, Import) and len(n.names) > 2:
                out.add("import 3+ names")
            if isinstance(n, TArr) and isinstance(n.item, (TArr, TUnion)):
                out.add("nested type")
            if isinstance(n, TypeDecl) and len(n.members) > 1:
                out.add("type union")
        return out


CHECK = C16()
