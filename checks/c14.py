"""C14: loops and conditions report all of their parts."""

from vlib.ast import Child, IfBody, Loop, Module, Object, Output, Resource, Var
from vlib import big
from vlib.common import DocCheck, place, walk


class C14(DocCheck):
    id = "C14"
    rule = (
        "Loops of all three kinds (source: identifier, call, accessor chain, array, any expression; with and without filter; body object or any "
        "value) and conditional bodies in variables, outputs, resources, modules, child resources and object properties, in random layouts; "
        "compared with the reference model. Non-trivial: a loop or a condition."
    )
    assumptions = ["a source that is a conditional expression is parenthesised", "a loop body with a filter is an object, as in Bicep's resource and module loops"]
    big = staticmethod(big.loops)
    quick_cases = 20000
    thorough_cases = 600000

    def decls(self, src, g):
        g.fuel = src.pick([6, 15, 40])
        g.max_depth = src.pick([1, 2, 3, 5])
        out = []
        for _ in range(src.weighted([(1, 4), (2, 3), (4, 1)])):
            k = src.n(9)
            name = g.name()
            if k == 0:
                out.append(Var(g.decos(1), name, g.loop(0)))
            elif k == 1:
                out.append(Output([], name, g.dtype(), False, g.loop(0)))
            elif k in (2, 3):
                out.append(Resource(g.decos(1), name, g.res_type(), g.version(), src.n(5) == 4, g.deploy_body(0, True, 1, p_loop=8, p_if=8)))
            elif k in (4, 5):
                out.append(Module(g.decos(1), name, g.module_ref(), g.deploy_body(0, p_loop=8, p_if=8)))
            elif k == 6:
                o = g.object(1, n=src.int(0, 3))
                o.pairs.insert(src.int(0, len(o.pairs)), ("looped", g.loop(1), False))
                out.append(place(g, o))
            elif k == 7:
                c = Child("kid", g.child_type(), False, g.deploy_body(1, False, p_loop=8, p_if=8))
                out.append(Resource([], name, g.res_type(), g.version(), False, Object([("a", g.atom(), False)], [(src.int(0, 1), c)])))
            else:
                # a loop in a property of a loop's body
                inner = Object([("list", g.loop(1), False), ("z", g.atom(), False)])
                out.append(Resource([], name, g.res_type(), g.version(), False, g.loop(0, body=inner)))
        return out

    def labels(self, decls):
        out = set()
        for n in walk(decls):
            if isinstance(n, Loop):
                out.add(f"loop:{n.kind}")
                out.add(f"source:{type(n.source).__name__}")
                if n.cond is not None:
                    out.add("filter")
                if not isinstance(n.body, Object):
                    out.add("value body")
            elif isinstance(n, IfBody):
                out.add("condition")
        return out


CHECK = C14()
