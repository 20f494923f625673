"""Big documents: the sizes random generation does not reach in quick runs, per property."""

from __future__ import annotations

from .ast import (
    Arr, Bin, Bool, Call, Child, Cond, Deco, Extension, FAcc, Func, Id, Idx, IfBody, Import, Int, Lam, Loop, Meta, Module, MStr, Null, Object, Output,
    Par, Param, Prop, Resource, Str, TArr, TName, TUnion, TypeDecl, Un, Var,
)

from .syntax import Canonical, Far

LOCAL = ("./m.bicep", "local", {"full": "./m.bicep", "path": "./m.bicep"})


def atom(i):
    """The i-th of a series of different small values."""
    return [
        lambda: Int(str(i)), lambda: Str(f"s{i % 97}"), lambda: Id(f"ref{i}"), lambda: Null(), lambda: Bool(i % 2 == 0), lambda: Str(""), lambda: Id("same"),
        lambda: Arr([]), lambda: Object([]), lambda: Str("same"), lambda: Int("0"), lambda: Arr([Int(str(i))]),
    ][(i * 7 + i // 12) % 12]()


def atoms(n):
    return [atom(i) for i in range(n)]


def scalar(i):
    return [lambda: Int(str(i)), lambda: Str(f"s{i % 97}"), lambda: Id(f"ref{i}"), lambda: Str("same"), lambda: Id("same")][(i * 7 + i // 12) % 5]()


def pairs(n):
    return [(f"k{i}", atom(i), False) for i in range(n)]


def declaration(i):
    """The i-th of a series of declarations of all kinds; every 7th name is used again later."""
    n = f"n{i % 700}_{i % 10}" if i % 7 == 0 else f"d{i}"
    deco = [Deco("description", Str(f"text {i}"))] if i % 3 == 0 else []
    k = i % 10
    if k == 0:
        return Var(deco, n, atom(i))
    if k == 1:
        return Param(deco, n, TName("string"), i % 4 == 1, Str(f"default{i}") if i % 4 else None)
    if k == 2:
        return Output(deco, n, TName("int"), False, Int(str(i)))
    if k == 3:
        return Resource(deco, n, f"A.B/c{i}", "2020-01-01", i % 4 == 3, Object([("name", Str(f"r{i}"), False)]))
    if k == 4:
        return Module(deco, n, LOCAL, Object([("name", Str(f"m{i}"), False)]))
    if k == 5:
        return TypeDecl(deco, n, [Object([("p", Id("string"), False)])])
    if k == 6:
        return Func(deco, n, [("p", TName("int"))], TName("string"), Str(f"f{i}"))
    if k == 7:
        return Meta(n, f"meta {i}")
    if k == 8:
        return Import([(f"t{i}", None), (f"u{i}", f"alias{i}")], f"./{i}.bicep", True)
    return Extension(n, None, f"e{i}" if i % 4 == 1 else None)


def nest(node, n, wrap):
    for i in range(n):
        node = wrap(node, i)
    return node


def resource(body, name="r"):
    return Resource([], name, "A.B/c", "1", False, body)


def literals():
    word = "".join(chr(97 + (i * i + i // 26) % 26) for i in range(997))
    yield [Var([], "v", Str(word * 70))]
    yield [Var([], "v", Str("${a}-" * 1500)), Meta("m", "x " * 20000 + "end")]
    yield [Var([], "v", Str("\\'" * 3000 + "\\\\" * 3000))]
    yield [Var([], "v", MStr((word + "\n  ") * 70 + "end"))]
    yield [Var([], "v", MStr("\n" * 5000 + "end")), Var([], "w", MStr(" " * 5000 + "'" * 2 + "end"))]
    yield [Var([], "v", Int("1234567890" * 400)), Var([], "w", Int("9" * 4300))]
    yield [Var([], f"v{i}", [Str(f"same {i % 2}"), MStr(f"same {i % 2}"), Int("0"), Bool(True), Null()][i % 5]) for i in range(1500)]


def containers():
    for n in (1100, 5200):
        yield [Var([], "v", Arr(atoms(n)))]
        yield [Var([], "v", Object(pairs(n)))]
    yield [Var([], "v", Arr([Int("1")] * 12000))]
    yield [Var([], "v", Arr([Object(pairs(3)) for _ in range(700)]))]
    yield [Var([], "v", Object([(f"k{i}", Arr(atoms(i % 5)), False) for i in range(700)]))]
    yield long_names(2000)
    yield [Var([], "v", Object([(f"k{i % 300}", atom(i), False) for i in range(1200)]))]
    yield [Var([], "v", nest(Int("1"), 90, lambda x, i: Arr([Int(str(i)), x]) if i % 2 else Object([("a", x, False), (f"k{i}", Null(), False)])))]
    yield [resource(Object([("tags", Object(pairs(1500)), False), ("list", Arr(atoms(1500)), False)]))]


def calls():
    for name in ("foo", "az.foo", "concat", "format", "resourceId", "union", "sys.max", "coalesce"):
        yield [Var([], "v", Call(name, [scalar(i) for i in range(600)]))]
    yield [Var([], "v", nest(Int("1"), 80, lambda x, i: Call(f"f{i}", [Int(str(i)), x, Id("b")])))]


def decorators():
    yield [Var([Deco("description", Str(f"d{i}")) for i in range(900)], "v", Int("1")), Var([], "w", Int("2"))]
    yield [Param([Deco(["secure", "minLength", "foo", "sys.export", "bar"][i % 5], [None, Int(str(i)), None, None, atom(i)][i % 5]) for i in range(900)], "v", TName("string"), False, None)]
    yield [Var([Deco("foo", Int(str(i)))] if i % 2 else [], f"v{i}", Int("1")) for i in range(1500)]
    yield [Param([Deco("allowed", Arr(atoms(3000))), Deco("metadata", Object(pairs(2000)))], "p", TName("string"), False, None)]


def operators():
    for op in ("&&", "||", "??", "+", "-", "=="):
        ops = [scalar(i) for i in range(120)]
        node = ops[-1]
        for x in reversed(ops[:-1]):
            node = Bin(op, x, node)
        yield [Var([], "v", node)]
    yield [Var([], "v", nest(Int("1"), 100, lambda x, i: Cond(Id(f"c{i}"), scalar(i), x)))]
    yield [Var([], "v", nest(Id("a"), 100, lambda x, i: Un("!" if i % 3 else "-", x)))]
    yield [Var([], "v", Arr([Bin(["&&", "<", "%", "=~"][i % 4], Id(f"a{i}"), scalar(i)) for i in range(1500)]))]


def accessors():
    def prop(names):
        node = Id(names[-1])
        for x in reversed(names[:-1]):
            node = Prop(Id(x), node)
        return node

    yield [Var([], "v", prop([f"p{i}" for i in range(120)]))]
    yield [Var([], "v", nest(Id("a"), 90, lambda x, i: Idx(Id(f"b{i}"), x, safe=False)))]
    yield [Var([], "v", nest(Id("a"), 90, lambda x, i: Idx(x, Int(str(i)), safe=False)))]
    yield long_names(2000)
    yield [Var([], "v", FAcc(Id("a"), "listKeys", [scalar(i) for i in range(300)]))]
    yield [Var([], "v", Arr([prop([f"a{i}", "b", f"c{i}"]) for i in range(1200)]))]


def children():
    def kid(body, i):
        return Object([("name", Str(f"k{i}"), False)], [(0, Child(f"c{i}", f"t{i}", i % 3 == 0, body))])

    yield [resource(nest(Object([]), 120, kid))]
    yield [resource(nest(Object([]), 6, kid), f"r{i}") for i in range(200)]
    yield [resource(nest(Object([]), 40, lambda x, i: kid(IfBody(Id(f"c{i}"), x) if i % 2 else x, i)))]


def loops():
    def deep(x, i):
        return Loop(["array", "array_index"][i % 2], [f"i{i}", f"x{i}"], Id(f"s{i}"), Id(f"c{i}") if i % 3 == 0 else None, Object([("k", x, False)]))

    yield [Var([], "v", nest(Int("1"), 60, deep))]
    yield [Var([], f"v{i}", Loop("array", ["a", "b"], Id(f"s{i}"), Bool(i % 2 == 0), Object(pairs(2)))) for i in range(700)]
    yield [resource(IfBody(Id(f"c{i}"), Object(pairs(2))), f"r{i}") for i in range(700)]
    yield [Var([], "v", Loop("array", ["a", "b"], Arr(atoms(1500)), None, Object(pairs(1500))))]


def references():
    yield long_names(2000)
    long = "a" * 600
    path = "/".join(f"p{i}" for i in range(500))
    refs = [
        (f"br:{long}.azurecr.io/{path}:{long}", "bicep_registry", {"registry_name": long, "path": path, "tag": long, "public": False}),
        (f"br:mcr.microsoft.com/{path}:{long}", "bicep_registry", {"registry_name": "mcr.microsoft.com", "path": path, "tag": long, "public": True}),
        (f"br/{long}:{path}:{long}", "bicep_registry_alias", {"alias": long, "path": path, "tag": long, "public": False}),
        (f"br/public:{path}:1", "bicep_registry_alias", {"alias": "public", "path": path, "tag": "1", "public": True}),
        (f"ts:1-1/{long}/{long}:{long}", "template_spec", {"subscription_id": "1-1", "resource_group_id": long, "name": long, "version": long}),
        (f"ts/{long}:{path}:{long}", "template_spec_alias", {"alias": long, "path": path, "tag": long}),
    ]
    for raw, typ, detail in refs:
        yield [Module([], "m", (raw, typ, {"full": raw[3:], **detail}), Object([]))]
    p = "../" * 300 + path + ".bicep"
    yield [Module([], "m", (p, "local", {"full": p, "path": p}), Object([]))]
    yield [Resource([], "r", f"A.B/{path}", long, False, Object([]))]
    yield [Resource([], f"r{i}", f"A.B/c{i % 3}", f"{i}", False, Object([])) for i in range(1200)]


def types():
    yield [Param([], "p", TUnion([TName(f"t{i % 500}") for i in range(800)]), False, None)]
    yield [Param([], "p", nest(TName("int"), 90, lambda x, i: TArr(x)), False, None)]
    yield [Param([], "p", nest(TName("int"), 60, lambda x, i: TArr(TUnion([TName(f"a{i}"), x]))), False, None)]
    yield [TypeDecl([], "t", [Str(f"m{i % 400}") for i in range(700)])]
    yield long_names(2000)
    yield [Func([], "f", [(f"a{i}", TName(f"t{i % 5}")) for i in range(700)], TName("string"), Id("a1"))]
    yield [Var([], "v", Call("map", [Id("a"), Lam([f"x{i}" for i in range(300)], Id("x1"), True)]))]
    yield [Import([(f"t{i}", f"a{i % 50}" if i % 2 else None) for i in range(1200)], "./x.bicep", True)]
    yield [Extension(f"e{i}", Object(pairs(2)) if i % 2 else None, f"a{i}" if i % 3 else None) for i in range(700)]


def declarations():
    yield long_names(300)
    yield long_names(70000)
    yield [declaration(i) for i in range(1500)]
    yield [Var([], f"v{i % 5}", Int(str(i))) for i in range(1200)]


def long_names(n):
    """Very long identifiers in every role."""
    word = "".join(chr(97 + (i * i + i // 26) % 26) for i in range(997))
    name = lambda c: (c + word * (n // 997 + 1))[:n] + c  # noqa: E731
    path = "./" + "/".join([word] * (n // 997 + 1)) + ".bicep"
    return [
        Var([], name("a"), Id(name("b"))),
        Param([Deco(name("x"), Id(name("c")))], name("p"), TArr(TName(name("t"))), False, Call(name("f"), [Id(name("d")), Call(name("g"), [])])),
        Output([], name("o"), TUnion([TName(name("t")), TName(name("u"))]), False, Object([(name("k"), Arr([Id(name("e"))]), False), ("'" + name("q") + "'", Str(name("s")), False)])),
        Resource([], name("r"), "A.B/" + name("c"), name("1"), False, Object([(name("k"), Prop(Id(name("m")), Id(name("n"))), False)], [(0, Child(name("h"), name("d"), True, Object([])))])),
        Module([], name("m"), (path, "local", {"full": path, "path": path}), Loop("array_index", [name("i"), name("j")], Id(name("l")), None, Object([]))),
        TypeDecl([], name("y"), [Object([(name("k"), Id(name("t")), True)])]),
        Func([], name("f"), [(name("p"), TName(name("t"))), (name("q"), TName("int"))], TName(name("t")), Id(name("p"))),
        Var([], "v", Call("map", [Id(name("x")), Lam([name("y"), name("z")], Id(name("z")), True)])),
        Var([], "w", FAcc(Id(name("x")), "list" + name("A"), [Id(name("y"))])),
        Var([], "x", Idx(Id(name("x")), Id(name("y")), safe=False)),
        Meta(name("e"), name("v")),
        Import([(name("i"), name("j")), (name("k"), None)], path, True),
        Extension(name("z"), Object([(name("k"), Null(), False)]), name("w")),
    ]


def everything():
    """One of each family."""
    for family in (literals, containers, calls, decorators, operators, accessors, children, loops, references, types, declarations):
        yield next(iter(family()))
    yield long_names(5000)
    yield [Var([], "p", nest(Int("1"), 90, lambda x, i: Par(x)))]


def sampler():
    # small declarations of every kind, for layouts that are big
    return [
        *[declaration(i) for i in range(20)],
        Resource(
            [Deco("description", Str("a")), Deco("batchSize", Int("1"))], "res", "A.B/c", "2020-01-01", False,
            Object([("a", Arr([Int("1"), Str("x"), Object([("k", Id("v"), False)])]), False), ("b", MStr("one\ntwo\n"), False)],
                   [(1, Child("kid", "d", False, Object([("x", Int("1"), False)], [(1, Child("grandkid", "e", True, Object([("y", Null(), False)])))])))]),
        ),
        Var([], "loop", Loop("array", ["i", "n"], Id("xs"), None, Object([("p", Id("i"), False), ("q", Str(""), False)]))),
        Param([Deco("allowed", Arr([Str("a"), Str("b")]))], "par", TUnion([TName("string"), TName("int")]), False, Str("a")),
    ]


def layouts():
    # layouts with very long gaps: (name, layout, leading text, final text)
    nl = "\n"
    yield "70000 leading lines", Canonical(), nl * 70000, nl
    yield "70000 leading CRLF lines", Far(1, 1, "\r\n"), "\r\n" * 70000, "\r\n"
    yield "leading comment of 70000 lines", Canonical(), "/*" + " x\n" * 70000 + "*/\n", nl
    yield "blank lines between declarations", Far(9000, 2, nl, ("T",)), "", nl
    yield "blank lines in declarations", Far(3000, 5, nl, ("D", "CS", "CP", "SEPO", "SEPO_NL", "SEPA")), "", nl
    yield "blank CRLF lines", Far(600, 3, "\r\n", nl="\r\n"), "", ""
    yield "comment lines", Far(700, 4, " // x 'y' {\n"), "", " // end"
    yield "block comments", Far(700, 4, "/* ''' \n*/\n"), "", nl
    yield "long line comments", Far(40000, 9, "// ", nl=" // x\n"), "", nl + "//" + "y" * 200000
    yield "long runs of blanks", Far(20000, 5, " \t", ("W", "S")), " " * 100000 + nl, nl + "\t" * 100000
    yield "inline comments", Far(200, 9, "/* a */ ", ("S",)), "", nl
    yield "70000 trailing lines", Canonical(), "", nl * 70000
