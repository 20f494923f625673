"""Abstract syntax: every node emits its tokens and states the result the parser must produce for it."""

from __future__ import annotations

from .syntax import C1, CP, CS, D, S, SEPA, SEPO, SEPO_NL, T, V, W, Mark
from .tables import DECOS, call_model
from .values import El, Obj

OPS = {
    ">=": "greater_than_or_equals", ">": "greater_than", "<=": "less_than_or_equals", "<": "less_than",
    "==": "equals", "!=": "not_equals", "=~": "equals_case_insensitive", "!~": "not_equals_case_insensitive",
    "&&": "and", "||": "or", "??": "coalesce",
    "+": "add", "-": "substract", "*": "multiply", "/": "divide", "%": "modulo",
}


class Node:
    """Base class. `vable`: may the node's first token follow a line break?"""

    vable = False
    depth = 1

    def emit(self, o):
        raise NotImplementedError

    def model(self):
        raise NotImplementedError


class Null(Node):
    vable = True

    def emit(self, o):
        o.append("null")

    def model(self):
        return None


class Bool(Node):
    vable = True

    def __init__(self, b):
        self.b = b

    def emit(self, o):
        o.append("true" if self.b else "false")

    def model(self):
        return self.b


class Int(Node):
    vable = True

    def __init__(self, digits):
        self.digits = digits

    def emit(self, o):
        o.append(self.digits)

    def model(self):
        return int(self.digits)


class Str(Node):
    vable = True

    def __init__(self, raw):
        self.raw = raw

    def emit(self, o):
        o.append("'" + self.raw + "'")

    def model(self):
        return self.raw


class MStr(Node):
    def __init__(self, raw):
        self.raw = raw

    def emit(self, o):
        o.append("'''" + self.raw + "'''")

    def model(self):
        if self.raw.startswith("\r\n"):
            return self.raw[2:]
        return self.raw[1:] if self.raw.startswith("\n") else self.raw


class Id(Node):
    vable = True

    def __init__(self, name):
        self.name = name

    def emit(self, o):
        o.append(self.name)

    def model(self):
        return El(self.name)


class Arr(Node):
    def __init__(self, items):
        self.items = items
        self.depth = 1 + max([i.depth for i in items], default=0)

    def emit(self, o):
        o.append("[")
        o.append(CS)
        for i, item in enumerate(self.items):
            if i:
                o.append(SEPA)
            item.emit(o)
        o.append(CS)
        o.append("]")

    def model(self):
        return [i.model() for i in self.items]


class Object(Node):
    """pairs: (key text, value node, nullable marker); child: a Child placed at index `child_at`."""

    def __init__(self, pairs, children=()):
        self.pairs = pairs
        self.children = list(children)  # (index, Child)
        self.depth = 1 + max([p[1].depth for p in pairs], default=0)

    def emit(self, o):
        entries = []
        at = {}
        for idx, c in self.children:
            at.setdefault(idx, []).append(c)
        for i in range(len(self.pairs) + 1):
            entries.extend(("c", c) for c in at.get(i, ()))
            if i < len(self.pairs):
                entries.append(("p", self.pairs[i]))
        o.append("{")
        o.append(CS)
        last = None
        for kind, e in entries:
            if last:
                o.append(SEPO if kind == last == "p" else SEPO_NL)
            if kind == "p":
                key, value, nullable = e
                o.append(key)
                o.append(W)
                o.append(":")
                o.append(V if value.vable else S)
                value.emit(o)
                if nullable:
                    o.append(W)
                    o.append("?")
            else:
                e.emit(o)
            last = kind
        o.append(CP if last == "c" else CS)
        o.append("}")

    def model(self):
        r = Obj()
        for key, value, _ in self.pairs:
            r[key] = value.model()
        return r


class Call(Node):
    vable = True

    def __init__(self, name, args):
        self.name = name
        self.args = args
        self.depth = 1 + max([a.depth for a in args], default=0)

    def emit(self, o):
        o.append(self.name + "(")
        for i, a in enumerate(self.args):
            if i:
                o.append(W)
                o.append(",")
            o.append(CS)
            a.emit(o)
        o.append(CS)
        o.append(")")

    def model(self):
        return call_model(self.name, [a.model() for a in self.args])


class Par(Node):
    def __init__(self, inner):
        self.inner = inner
        self.depth = 1 + inner.depth

    def emit(self, o):
        o.append("(")
        o.append(V if self.inner.vable else W)
        self.inner.emit(o)
        o.append(W)
        o.append(")")

    def model(self):
        return self.inner.model()


class Bang(Node):
    """Null-forgiving suffix."""

    def __init__(self, inner):
        self.inner = inner
        self.vable = inner.vable
        self.depth = inner.depth

    def emit(self, o):
        self.inner.emit(o)
        o.append("!")
        o.append(W)

    def model(self):
        return self.inner.model()


class Idx(Node):
    def __init__(self, base, index, safe):
        self.base, self.index, self.safe = base, index, safe
        self.vable = base.vable
        self.depth = 1 + max(base.depth, index.depth)

    def emit(self, o):
        self.base.emit(o)
        o.append("[")
        o.append(W)
        if self.safe:
            o.append("?")
            o.append(W)
        self.index.emit(o)
        o.append(W)
        o.append("]")

    def model(self):
        return {"operator": {"type": "index_accessor", "operands": {"operand_1": self.base.model(), "operand_2": self.index.model()}}}


class FAcc(Node):
    """base.listX(...) / base.getSecret(...)"""

    def __init__(self, base, name, args):
        self.base, self.name, self.args = base, name, args
        self.vable = base.vable
        self.depth = 1 + max([base.depth] + [a.depth for a in args])

    def emit(self, o):
        self.base.emit(o)
        o.append(".")
        o.append(self.name + "(")
        for i, a in enumerate(self.args):
            if i:
                o.append(W)
                o.append(",")
            o.append(V if a.vable else W)
            a.emit(o)
        o.append(W)
        o.append(")")

    def model(self):
        ops = {"operand_1": self.base.model(), "func_name": self.name}
        for i, a in enumerate(self.args):
            ops[f"operand_{i + 2}"] = a.model()
        return {"operator": {"type": "function_accessor", "operands": ops}}


class Bin(Node):
    def __init__(self, op, left, right):
        self.op, self.left, self.right = op, left, right
        self.vable = left.vable
        self.depth = 1 + max(left.depth, right.depth)

    def emit(self, o):
        self.left.emit(o)
        o.append(W)
        o.append(self.op)
        o.append(V if self.right.vable else W)
        self.right.emit(o)

    def model(self):
        return {"operator": {"type": OPS[self.op], "operands": {"operand_1": self.left.model(), "operand_2": self.right.model()}}}


class Un(Node):
    def __init__(self, op, arg):
        self.op, self.arg = op, arg
        self.depth = 1 + arg.depth

    def emit(self, o):
        o.append(self.op)
        o.append(V if self.arg.vable else W)
        self.arg.emit(o)

    def model(self):
        if self.op == "!":
            return {"operator": {"type": "not", "operands": {"bool_value": self.arg.model()}}}
        return {"operator": {"type": "minus", "operands": {"integer_value": self.arg.model()}}}


class Cond(Node):
    def __init__(self, c, t, f):
        self.c, self.t, self.f = c, t, f
        self.vable = c.vable
        self.depth = 1 + max(c.depth, t.depth, f.depth)

    def emit(self, o):
        self.c.emit(o)
        o.append(S)
        o.append("?")
        o.append(S)
        self.t.emit(o)
        o.append(S)
        o.append(":")
        o.append(V if self.f.vable else S)
        self.f.emit(o)

    def model(self):
        return {
            "operator": {
                "type": "conditional",
                "operands": {"condition": self.c.model(), "true_value": self.t.model(), "false_value": self.f.model()},
            }
        }


class Prop(Node):
    """Property (.) or nested resource (::) access; the right side is everything that follows."""

    def __init__(self, base, right, safe=False, nested=False):
        self.base, self.right, self.safe, self.nested = base, right, safe, nested
        self.vable = base.vable
        self.depth = 1 + max(base.depth, right.depth)

    def emit(self, o):
        self.base.emit(o)
        if self.nested:
            o.append(W)
            o.append("::")
            o.append(W)
        else:
            o.append(".")
            if self.safe:
                o.append("?")
        self.right.emit(o)

    def model(self):
        t = "nested_resource_accessor" if self.nested else "property_accessor"
        return {"operator": {"type": t, "operands": {"operand_1": self.base.model(), "operand_2": self.right.model()}}}


class Lam(Node):
    def __init__(self, params, body, parens):
        self.params, self.body, self.parens = params, body, parens or len(params) > 1
        self.vable = not self.parens
        self.depth = 1 + body.depth

    def emit(self, o):
        if self.parens:
            o.append("(")
            o.append(W)
            for i, p in enumerate(self.params):
                if i:
                    o.append(W)
                    o.append(",")
                    o.append(W)
                o.append(p)
            o.append(W)
            o.append(")")
        else:
            o.append(self.params[0])
        o.append(W)
        o.append("=>")
        o.append(V if self.body.vable else W)
        self.body.emit(o)

    def model(self):
        d = {f"var_{i + 1}": p for i, p in enumerate(self.params)}
        d["expression"] = self.body.model()
        return {"type": "lambda_expression", "detail": d}


class Loop(Node):
    """[for ...: body]; kind is 'array', 'array_index' or 'object'."""

    def __init__(self, kind, names, source, cond, body):
        self.kind, self.names, self.source, self.cond, self.body = kind, names, source, cond, body
        self.depth = 1 + max(body.depth, source.depth)

    def emit(self, o):
        o += ["[", C1, "for", S]
        if self.kind == "array_index":
            o += ["(", W, self.names[0], W, ",", W, self.names[1], W, ")", S, "in", S]
            self.source.emit(o)
        elif self.kind == "object":
            o += [self.names[0], S, "in", S, "items", S, "(", W]
            self.source.emit(o)
            o += [W, ")"]
        else:
            o += [self.names[0], S, "in", S]
            self.source.emit(o)
        o += [W, ":"]
        if self.cond is not None:
            o += [V, "if", W, "(", V if self.cond.vable else W]
            self.cond.emit(o)
            o += [W, ")", S]
            self.body.emit(o)
        else:
            o.append(V if self.body.vable else S)
            self.body.emit(o)
        o += [CS, "]"]

    def model(self):
        src = self.source.model()
        if self.kind == "array_index":
            d = {"item_name": self.names[0], "index_name": self.names[1], "array_name": src}
        elif self.kind == "object":
            d = {"item_name": self.names[0], "object_name": src}
        else:
            d = {"item_name": self.names[0], "array_name": src}
        return {
            "loop_type": {"type": self.kind, "detail": d},
            "condition": None if self.cond is None else self.cond.model(),
            "config": self.body.model(),
        }


class IfBody(Node):
    """Conditional deployment: if (cond) { ... }"""

    def __init__(self, cond, body):
        self.cond, self.body = cond, body
        self.depth = 1 + max(cond.depth, body.depth)

    def emit(self, o):
        o += [C1, "if", W, "(", V if self.cond.vable else W]
        self.cond.emit(o)
        o += [W, ")", W]
        self.body.emit(o)

    def model(self):
        return {"condition": self.cond.model(), "config": self.body.model()}


def inner_object(body):
    while isinstance(body, (Loop, IfBody)):
        body = body.body
    return body


# ---------------------------------------------------------------- data types


class TName:
    def __init__(self, name):
        self.name = name

    def emit(self, o):
        o.append(self.name)

    def model(self):
        return self.name


class TArr:
    def __init__(self, item):
        self.item = item

    def emit(self, o):
        self.item.emit(o)
        o += ["[", W, "]"]

    def model(self):
        return {"type": "array", "item_type": self.item.model()}


class TUnion:
    def __init__(self, members):
        self.members = members

    def emit(self, o):
        o += ["(", W]
        for i, m in enumerate(self.members):
            if i:
                o += [W, "|", W]
            m.emit(o)
        o += [W, ")"]

    def model(self):
        return {"type": "union", "members": [m.model() for m in self.members]}


# ---------------------------------------------------------------- declarations


class Deco:
    def __init__(self, name, arg):
        self.name, self.arg = name, arg

    def emit(self, o):
        o += ["@", self.name, "(", CS]
        if self.arg is not None:
            self.arg.emit(o)
            o.append(CS)
        o.append(")")

    def model(self):
        base = self.name.removeprefix("sys.")
        if base in DECOS:
            typ, takes = DECOS[base]
            r = {"type": typ}
            if takes:
                a = unpar(self.arg)
                if base in ("minValue", "maxValue") and isinstance(a, Un) and a.op == "-" and isinstance(unpar(a.arg), Int):
                    r["argument"] = -unpar(a.arg).model()
                else:
                    r["argument"] = a.model()
            return r
        r = {"type": self.name}
        if self.arg is not None:
            r["argument"] = self.arg.model()
        return r


def unpar(n):
    while isinstance(n, (Par, Bang)):
        n = n.inner
    return n


class Decl:
    section = ""
    decos: list = []

    def __init__(self):
        self.key = id(self)

    def emit_decos(self, o):
        for d in self.decos:
            d.emit(o)
            o.append(D)

    def body(self, o):
        raise NotImplementedError

    def emit(self, o):
        o.append(Mark(("<", self.key)))
        self.emit_decos(o)
        self.body(o)
        o.append(Mark((">", self.key)))

    def entries(self):
        """[(section, name, attrs, key)] of this declaration itself."""
        raise NotImplementedError

    def late(self):
        """Entries recorded after all other declarations (hoisted child resources)."""
        return []

    def d(self, **attrs):
        return {"decorators": [x.model() for x in self.decos], **attrs}


class Scope(Decl):
    def __init__(self, value):
        super().__init__()
        self.value = value

    def body(self, o):
        o += ["targetScope", W, "=", W, f"'{self.value}'"]

    def entries(self):
        return [("globals", "scope", {"value": self.value}, self.key)]


class Meta(Decl):
    def __init__(self, name, raw):
        super().__init__()
        self.name, self.raw = name, raw

    def body(self, o):
        o += ["metadata", S, self.name, W, "=", W, f"'{self.raw}'"]

    def entries(self):
        return [("metadata", self.name, {"value": self.raw}, self.key)]


class Param(Decl):
    def __init__(self, decos, name, typ, nullable, default):
        super().__init__()
        self.decos, self.name, self.typ, self.nullable, self.default = decos, name, typ, nullable, default

    def body(self, o):
        o += ["param", S, self.name, S]
        self.typ.emit(o)
        if self.nullable:
            o += [W, "?"]
        if self.default is not None:
            o += [W, "=", V if self.default.vable else S]
            self.default.emit(o)

    def entries(self):
        default = None if self.default is None else self.default.model()
        return [("parameters", self.name, self.d(type=self.typ.model(), default=default), self.key)]


class Var(Decl):
    def __init__(self, decos, name, value, typ=None, nullable=False):
        super().__init__()
        self.decos, self.name, self.value, self.typ, self.nullable = decos, name, value, typ, nullable

    def body(self, o):
        o += ["var", S, self.name]
        if self.typ is not None:
            o.append(S)
            self.typ.emit(o)
            if self.nullable:
                o += [W, "?"]
        o += [W, "=", V if self.value.vable else S]
        self.value.emit(o)

    def entries(self):
        a = self.d(value=self.value.model())
        if self.typ is not None:
            a["type"] = self.typ.model()
        return [("variables", self.name, a, self.key)]


class Output(Decl):
    def __init__(self, decos, name, typ, nullable, value):
        super().__init__()
        self.decos, self.name, self.typ, self.nullable, self.value = decos, name, typ, nullable, value

    def body(self, o):
        o += ["output", S, self.name, S]
        self.typ.emit(o)
        if self.nullable:
            o += [W, "?"]
        o += [W, "=", V if self.value.vable else S]
        self.value.emit(o)

    def entries(self):
        return [("outputs", self.name, self.d(type=self.typ.model(), value=self.value.model()), self.key)]


def child_entries(parent_name, parent_type, version, body):
    out = []
    for _, c in inner_object(body).children:
        name = f"{parent_name}__{c.name}"
        own, _, own_version = c.typ.partition("@")
        typ = f"{parent_type}/{own}"
        config = c.body_node.model()
        config["depends_on"] = [El(parent_name)]
        inherited = own_version or version
        attrs = {"decorators": [], "type": typ, "api_version": inherited, "existing": c.existing, "config": config}
        out.append(("resources", name, attrs, c.key))
        out.extend(child_entries(name, typ, inherited, c.body_node))
    return out


class Resource(Decl):
    def __init__(self, decos, name, typ, version, existing, body):
        super().__init__()
        self.decos, self.name, self.typ, self.version, self.existing, self.body_node = decos, name, typ, version, existing, body

    def body(self, o):
        o += ["resource", S, self.name, S, f"'{self.typ}@{self.version}'"]
        if self.existing:
            o += [S, "existing"]
        o += [W, "=", W]
        self.body_node.emit(o)

    def entries(self):
        return [
            (
                "resources",
                self.name,
                self.d(type=self.typ, api_version=self.version, existing=self.existing, config=self.body_node.model()),
                self.key,
            )
        ]

    def late(self):
        return child_entries(self.name, self.typ, self.version, self.body_node)


class Child(Decl):
    """Child resource inside the body of another resource (emitted by Object)."""

    def __init__(self, name, typ, existing, body):
        super().__init__()
        self.name, self.typ, self.existing, self.body_node = name, typ, existing, body

    def body(self, o):
        o += ["resource", S, self.name, S, f"'{self.typ}'"]
        if self.existing:
            o += [S, "existing"]
        o += [W, "=", W]
        self.body_node.emit(o)


class Module(Decl):
    def __init__(self, decos, name, ref, body):
        super().__init__()
        self.decos, self.name, self.ref, self.body_node = decos, name, ref, body  # ref: (raw, type, detail)

    def body(self, o):
        o += ["module", S, self.name, S, f"'{self.ref[0]}'", W, "=", W]
        self.body_node.emit(o)

    def entries(self):
        return [("modules", self.name, self.d(type=self.ref[1], detail=dict(self.ref[2]), config=self.body_node.model()), self.key)]


class TypeDecl(Decl):
    def __init__(self, decos, name, members):
        super().__init__()
        self.decos, self.name, self.members = decos, name, members

    def body(self, o):
        o += ["type", S, self.name, W, "=", V if self.members[0].vable else S]
        for i, m in enumerate(self.members):
            if i:
                o += [W, "|", V if m.vable else W]
            m.emit(o)

    def entries(self):
        if len(self.members) == 1:
            value = self.members[0].model()
        else:
            value = " | ".join(str(m.model()) for m in self.members)
        return [("types", self.name, self.d(value=value), self.key)]


class Func(Decl):
    def __init__(self, decos, name, params, ret, expr):
        super().__init__()
        self.decos, self.name, self.params, self.ret, self.expr = decos, name, params, ret, expr

    def body(self, o):
        o += ["func", S, self.name, W, "(", W]
        for i, (n, t) in enumerate(self.params):
            if i:
                o += [W, ",", W]
            o += [n, S]
            t.emit(o)
        o += [W, ")", W]
        self.ret.emit(o)
        o += [W, "=>", V if self.expr.vable else W]
        self.expr.emit(o)

    def entries(self):
        args = Obj()
        for n, t in self.params:
            args[n] = t.model()
        return [("functions", self.name, self.d(args=args, type=self.ret.model(), expression=self.expr.model()), self.key)]


class Import(Decl):
    """names: [(name, alias or None)], path text, braces."""

    def __init__(self, names, path, braces):
        super().__init__()
        self.names, self.path, self.braces = names, path, braces or len(names) > 1

    def body(self, o):
        o += ["import", S]
        if self.braces:
            o += ["{", W]
        for i, (n, a) in enumerate(self.names):
            if i:
                o += [W, ",", W]
            o.append(n)
            if a is not None:
                o += [S, "as", S, a]
        if self.braces:
            o += [W, "}"]
        o += [S, "from", S, f"'{self.path}'"]

    def entries(self):
        return []

    def imports(self):
        out = []
        for n, a in self.names:
            attrs = {"file_path": self.path}
            if a is not None:
                attrs["alias"] = a
            out.append(("imports", n, attrs, self.key))
        return out


class NsImport(Decl):
    def __init__(self, path):
        super().__init__()
        self.path = path

    def body(self, o):
        o += ["import", S, f"'{self.path}'"]

    def entries(self):
        return []

    def imports(self):
        return [("imports", self.path, {}, self.key)]


class Extension(Decl):
    def __init__(self, name, config, alias):
        super().__init__()
        self.name, self.config, self.alias = name, config, alias

    def body(self, o):
        o += ["extension", S, self.name]
        if self.config is not None:
            o += [S, "with", S]
            self.config.emit(o)
        if self.alias is not None:
            o += [S, "as", S, self.alias]

    def entries(self):
        a = {}
        if self.config is not None:
            a["config"] = self.config.model()
        if self.alias is not None:
            a["alias"] = self.alias
        return [("extensions", self.name, a, self.key)]


def doc_tokens(decls):
    o = []
    for i, d in enumerate(decls):
        if i:
            o.append(T)
        d.emit(o)
    return o


def doc_entries(decls):
    out = []
    for d in decls:
        out.extend(d.entries())
    for d in decls:
        if isinstance(d, (Import, NsImport)):
            out.extend(d.imports())
    for d in decls:
        out.extend(d.late())
    return out


def doc_model(decls, spans=None):
    """Expected result; with spans (key -> (start, end)) the line numbers are included."""
    res = {"globals": Obj({"scope": {"value": "resourceGroup"}})}
    if spans is not None:
        res["globals"]["scope"].update(__start_line__=0, __end_line__=0)
    for section, name, attrs, key in doc_entries(decls):
        attrs = dict(attrs)
        if spans is not None:
            attrs["__start_line__"], attrs["__end_line__"] = spans[key]
        res.setdefault(section, Obj())[name] = attrs
    return res
