"""Shared case builders and oracles."""

from __future__ import annotations

from . import ast as A
from . import target
from .ast import Arr, Call, Cond, Deco, Func, IfBody, Lam, Loop, Object, Output, Par, Param, Prop, Resource, TName, TypeDecl, Un, Var
from .ast import Bin, Child, FAcc, Id, Idx, Int, Module, Str, doc_model, doc_tokens
from .engine import Check, Source, Violation
from .gen import G
from .syntax import Canonical, Random, render
from .values import dec, diff, enc


def layout_for(src, style=None):
    """Mostly the canonical layout for content checks; random layouts for the rest."""
    if style is None:
        style = src.weighted([("canonical", 5), ("random", 4), ("crlf", 1)])
    if style == "canonical":
        return Canonical(), style
    return Random(src, crlf=style == "crlf"), style


def edges(src, layout, style):
    """Text before the first and after the last declaration."""
    if style == "canonical":
        return "", src.pick(["\n", ""])
    nl = layout.eol()
    begin = src.pick(["", "", "", nl, "// head" + nl, "/* head */" + nl, nl + nl, "  ", "# x" + nl])
    end = src.pick([nl, "", " ", nl + nl, " // tail", " // tail" + nl, " /* tail */", nl + "  ", " # tail", nl + "// tail"])
    return begin, end


def render_doc(src, decls, style=None):
    layout, style = layout_for(src, style)
    begin, end = edges(src, layout, style)
    text, spans = render(doc_tokens(decls), layout, begin, end)
    return text, spans, layout


def doc_case(src, decls, style=None):
    text, spans, _ = render_doc(src, decls, style)
    return {"text": text, "expected": enc(doc_model(decls))}


def shown(text, limit=4000):
    return text if len(text) <= limit else f"{text[:limit]}... ({len(text)} characters)"


def expect(text, expected, lines=False, order=True, what="parse"):
    """Parses `text` and compares with the encoded expected result."""
    out = target.parse(text, lines)
    if not out.ok:
        raise Violation(f"{what}: valid document rejected with {out.describe()}\n--- document\n{shown(text)}")
    d = diff(out.value, dec(expected), target.load()["BicepElement"], order=order)
    if d:
        raise Violation(f"{what}: {d}\n--- document\n{shown(text)}")
    return out.value


def walk(node):
    """Every syntax node below (and including) `node`."""
    stack = [node]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple)):
            stack.extend(reversed(x))
        elif type(x).__module__ == A.__name__:
            yield x
            stack.extend(reversed(list(vars(x).values())))


def count(decls, *kinds):
    return sum(isinstance(n, kinds) for n in walk(decls))


CLOSED = (A.Null, A.Bool, A.Int, A.Str, A.MStr, A.Id, A.Arr, A.Object, A.Call, A.Par, A.Idx, A.FAcc)


def close(node):
    """`node` as something that may stand left of an operator."""
    return node if isinstance(node, CLOSED) else Par(node)


# ---------------------------------------------------------------- where a value can stand


def _wrap_value(g, node):
    """`node` inside another value."""
    s = g.s
    k = s.n(14)
    if k == 0:
        return Arr([node])
    if k == 1:
        items = [g.atom() for _ in range(s.int(0, 3))]
        items.insert(s.int(0, len(items)), node)
        return Arr(items)
    if k == 2:
        return Object([("k", node, False)])
    if k == 3:
        pairs = [(f"p{i}", g.atom(), False) for i in range(s.int(0, 3))]
        pairs.insert(s.int(0, len(pairs)), ("k", node, False))
        return Object(pairs)
    if k == 4:
        n = s.int(1, 3)
        args = [g.atom() for _ in range(n)]
        args[s.n(n)] = node
        return Call(s.pick(["foo", "my_fn", "az.foo", "concat", "format", "sys.min"]), args)
    if k == 5:
        return Bin(s.pick(list(A.OPS)), close(node), g.atom())
    if k == 6:
        return Bin(s.pick(list(A.OPS)), g.atom(), node)
    if k == 7:
        return Cond(close(node), g.atom(), g.atom())
    if k == 8:
        return Cond(g.atom(), node, g.atom()) if s.n(2) else Cond(g.atom(), g.atom(), node)
    if k == 9:
        return Par(node)
    if k == 10:
        return Un(s.pick(["-", "!"]), node)
    if k == 11:
        return Idx(Id("base"), node, safe=s.n(4) == 3)
    if k == 12:
        return FAcc(Id("base"), s.pick(["listKeys", "getSecret", "list"]), [g.atom() for _ in range(s.int(0, 2))] + [node])
    return Prop(Id("base"), Idx(Id("m"), node, safe=False))


def place(g, node, depth=None):
    """A declaration that contains the value `node` somewhere."""
    s = g.s
    for _ in range(s.weighted([(0, 4), (1, 4), (2, 2), (3, 1), (6, 1)]) if depth is None else depth):
        node = _wrap_value(g, node)
    k = s.n(13)
    name = s.pick(["v", "x", "name", "p1", "_q"])
    if k <= 2:
        return Var(g.decos(1), name, node)
    if k == 3:
        return Param(g.decos(1), name, TName("string"), False, node)
    if k == 4:
        return Output([], name, TName("object"), False, node)
    if k == 5:
        return Resource([], name, "A.B/c", "2020-01-01", s.n(2) == 1, Object([("name", node, False), ("z", Int("1"), False)]))
    if k == 6:
        return Module([], name, ("./m.bicep", "local", {"full": "./m.bicep", "path": "./m.bicep"}), Object([("params", Object([("p", node, False)]), False)]))
    if k == 7:
        return Param([Deco(s.pick(["description", "sys.allowed", "metadata", "foo", "batchSize", "sys.bar"]), node)], name, TName("string"), False, None)
    if k == 8:
        return Var([], name, Loop("array", ["i", "j"], Id("src"), None, Object([("k", node, False)])))
    if k == 9:
        return Resource([], name, "A.B/c", "1", False, IfBody(node, Object([("a", Int("1"), False)])))
    if k == 10:
        return Func([], name, [("p", TName("int"))], TName("string"), node)
    if k == 11:
        c = Child("kid", "sub", False, Object([("name", node, False)]))
        return Resource([], name, "A.B/c", "1", False, Object([("a", Int("1"), False)], [(1, c)]))
    if isinstance(node, Lam):
        node = Arr([node])
    return TypeDecl([], name, [Object([("k", node, False)])])


class DocCheck(Check):
    """A check whose cases are documents compared with the reference model."""

    order = True
    big = None

    def setup(self):
        target.parser(False)
        target.parser(True)

    def decls(self, src, g):
        raise NotImplementedError

    def grammar(self, src, tier):
        return G(src, tier=tier)

    def fixed(self, tier):
        """Big documents of the kinds the property is about."""
        return [lambda decls=decls: self.big_case(decls, tier) for decls in (self.big() if self.big else ())]

    def big_case(self, decls, tier):
        src = Source(prefix=[])
        src.LIMIT = 1 << 24
        self.decls = lambda src, g: decls
        try:
            return self.gen(src, tier)
        finally:
            del self.decls

    def gen(self, src, tier):
        g = self.grammar(src, tier)
        decls = self.decls(src, g)
        case = doc_case(src, decls)
        case["labels"] = sorted(set(self.labels(decls)))
        return case

    def labels(self, decls):
        """Classes the case belongs to; a case without any is counted as trivial."""
        return sorted({type(n).__name__ for n in walk(decls)})

    def run(self, case, ctx):
        expect(case["text"], case["expected"], order=self.order)
        ctx.label(*case["labels"])
        return bool(case["labels"])
