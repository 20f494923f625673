"""C24: results have the shape the published types (pycep.typing) declare."""

import ast
import importlib
import re
import typing

from vlib import target
from vlib.ast import Call, Deco
from vlib import big
from vlib.common import DocCheck, render_doc, shown
from vlib.engine import Violation
from vlib.gen import G
from vlib.tables import DECOS, KNOWN_NAMES

# keys a plain object could only be confused with a typed node by; generated objects leave them out
MARKS = ("function", "operator", "loop_type", "condition", "config", "type", "detail", "parameters", "operands")
MODULES = ("LocalModulePath", "BicepRegistryModulePath", "BicepRegistryAliasModulePath", "TemplateSpecModulePath", "TemplateSpecAliasModulePath")
FAMILY = re.compile(r"(.*_)([1-9]\d*)")


class Types:
    """The shapes declared in pycep.typing, read from the loaded module."""

    def __init__(self):
        self.ns = vars(importlib.import_module("pycep.typing"))
        self.fields = {}

    def text(self, hint):
        hint = getattr(hint, "__forward_arg__", hint)
        return hint if isinstance(hint, str) else None

    def parse(self, hint):
        text = self.text(hint)
        if text is not None:
            return ast.parse(text, mode="eval").body
        return hint

    def shape(self, cls):
        """(required, optional) fields of a TypedDict, each name -> annotation."""
        if cls not in self.fields:
            req, opt = {}, {}
            for k, hint in cls.__annotations__.items():
                node = self.parse(hint)
                wrapper = None
                if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in ("NotRequired", "Required"):
                    wrapper, node = node.value.id, node.slice
                elif typing.get_origin(node) in (typing.NotRequired, typing.Required):
                    wrapper = "NotRequired" if typing.get_origin(node) is typing.NotRequired else "Required"
                    node = self.parse(typing.get_args(node)[0])
                if wrapper == "NotRequired" or (wrapper is None and k not in cls.__required_keys__):
                    opt[k] = node
                else:
                    req[k] = node
            self.fields[cls] = req, opt
        return self.fields[cls]

    def alternatives(self, node):
        """Flattens unions and aliases to a list of simple annotations."""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return self.alternatives(self.parse(node.value))
        if isinstance(node, ast.Constant) and node.value is None:
            return [type(None)]
        if isinstance(node, ast.BinOp):
            return self.alternatives(node.left) + self.alternatives(node.right)
        if isinstance(node, ast.Name):
            if node.id in ("PossibleValue", "PossibleNoneValue"):
                return [typing.Any]
            obj = self.ns.get(node.id, getattr(__import__("builtins"), node.id, None))
            if isinstance(obj, str) or hasattr(obj, "__forward_arg__"):
                return self.alternatives(self.parse(obj))
            return [obj] if isinstance(obj, type) or obj is typing.Any else self.alternatives(obj)
        if isinstance(node, ast.Subscript):
            return [node]
        args = typing.get_args(node)
        if args and typing.get_origin(node) not in (list, dict, typing.Literal):
            return [x for a in args for x in self.alternatives(self.parse(a))]
        return [node]

    def literals(self, node):
        """The strings of a Literal annotation, or None."""
        if isinstance(node, ast.Subscript):
            if isinstance(node.value, ast.Name) and node.value.id == "Literal":
                items = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                return [x.value for x in items]
        elif typing.get_origin(node) is typing.Literal:
            return list(typing.get_args(node))
        return None

    def container(self, node):
        """("list", item) or ("dict", value) of a generic annotation, or None."""
        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in ("list", "dict"):
            return node.value.id, node.slice if node.value.id == "list" else node.slice.elts[1]
        if typing.get_origin(node) in (list, dict):
            return typing.get_origin(node).__name__, self.parse(typing.get_args(node)[-1])
        return None


class Checker:
    """Compares a result with the declared shapes; `strict` only where the declared types are exact."""

    def __init__(self, types):
        self.t = types
        self.seen = []

    def fail(self, path, what):
        raise Violation(f"{path}: {what}")

    def record(self, v, cls, path, strict):
        """`v` has the keys that `cls` declares, with conforming values."""
        if type(v) is not dict:
            self.fail(path, f"{v!r:.80} where the published types declare {cls.__name__}")
        self.seen.append(cls.__name__)
        req, opt = self.t.shape(cls)
        families = {m[1]: n for k, n in (*opt.items(), *req.items()) if (m := FAMILY.fullmatch(k))}
        for k in req:
            # how many members of a numbered family there are is up to the call
            if k not in v and not FAMILY.fullmatch(k):
                self.fail(path, f"{cls.__name__} without its required key {k!r}: {list(v)}")
        for k, x in v.items():
            node = req.get(k, opt.get(k))
            if node is None:
                m = FAMILY.fullmatch(k)
                # a numbered family goes on, without gaps
                if not m or m[1] not in families or (int(m[2]) > 1 and f"{m[1]}{int(m[2]) - 1}" not in (*v, *req, *opt)):
                    self.fail(path, f"{cls.__name__} with the undeclared key {k!r}: {list(v)}")
                node = families[m[1]]
            self.value(x, node, f"{path}.{k}", strict)

    def pick(self, v, classes, path, strict):
        """The alternative of a union whose type tag fits."""
        tag = v.get("type") if type(v) is dict else None
        fallback = []
        for cls in classes:
            req, opt = self.t.shape(cls)
            lits = self.t.literals(req["type"]) if "type" in req else None
            if lits is None:
                fallback.append(cls)
            elif tag in lits:
                return self.record(v, cls, path, strict)
        if len(classes) > 1 and len(fallback) == len(classes):
            # no type tags: one of them has to fit
            for cls in classes:
                try:
                    return self.record(v, cls, path, strict)
                except Violation:
                    pass
        if len(classes) == 1:
            return self.record(v, classes[0], path, strict)
        if not fallback:
            self.fail(path, f"type {tag!r} is none of those the published types declare here")
        return self.record(v, fallback[0], path, strict)

    def value(self, v, node, path, strict):
        alts = self.t.alternatives(node)
        if typing.Any in alts:
            return self.free(v, path)
        records = [a for a in alts if isinstance(a, type) and typing.is_typeddict(a)]
        if type(v) is dict and records:
            # unions of shapes: functions, operators, decorators, data types ...
            deep = strict and "type" not in v
            return self.pick(v, records, path, deep or strict and not any("decorator" in p.lower() for p in (r.__name__ for r in records)))
        for a in alts:
            lits = self.t.literals(a)
            if lits is not None:
                if v in lits:
                    return None
                continue
            box = self.t.container(a)
            if box:
                kind, item = box
                if kind == "list" and type(v) is list:
                    for i, x in enumerate(v):
                        if strict:
                            self.value(x, item, f"{path}[{i}]", strict)
                        else:
                            self.free(x, f"{path}[{i}]")
                    return None
                if kind == "dict" and type(v) is dict and typing.Any in self.t.alternatives(item):
                    return self.free(v, path)
                if kind == "dict" and type(v) is dict:
                    for k, x in v.items():
                        if type(k) is not str:
                            self.fail(path, f"key {k!r}")
                        if strict:
                            self.value(x, item, f"{path}.{k}", strict)
                        else:
                            self.free(x, f"{path}.{k}")
                    return None
                continue
            if a is str and isinstance(v, str):
                return None
            if a in (int, bool, type(None), dict, list) and type(v) is a:
                return None
        if strict or any(self.t.literals(a) for a in alts):
            self.fail(path, f"{v!r:.120} is not what the published types declare: {[ast.unparse(a) if isinstance(a, ast.AST) else getattr(a, '__name__', str(a)) for a in alts]}")
        # the declared type names the usual literal; any expression may stand there
        return self.free(v, path)

    def free(self, v, path):
        """Any value; calls, operators, lambdas, loops and conditions in it are typed."""
        ns = self.t.ns
        if type(v) is list:
            for i, x in enumerate(v):
                self.free(x, f"{path}[{i}]")
        elif type(v) is dict:
            if "function" in v:
                self.record(v, ns["Function"], path, False)
            elif "operator" in v:
                self.record(v, ns["Operator"], path, False)
            elif "loop_type" in v or "condition" in v:
                # a child resource refers to its parent beside the loop or condition
                v = {k: x for k, x in v.items() if k != "depends_on"}
                if "loop_type" not in v:
                    return self.record(v, ns["DeployCondition"], path, False)
                self.record(v, ns["Loop"], path, False)
            elif v.get("type") == "lambda_expression":
                self.record(v, ns["LambdaExpression"], path, False)
            elif v.get("type") == "union" and "members" in v:
                self.record(v, ns["UnionType"], path, False)
            else:
                for k, x in v.items():
                    if k in MARKS:
                        self.fail(path, f"a part {list(v)} that no published type describes")
                    self.free(x, f"{path}.{k}")
        elif v is not None and type(v) not in (str, int, bool) and not isinstance(v, str):
            self.fail(path, f"{v!r:.80}")


class Gen24(G):
    tags = frozenset()

    def call(self, d, member=False, name=None):
        # a function that merely bears the type of another one cannot be told from it
        c = super().call(d, member, name)
        return Call(c.name + "X", c.args) if c.name in self.tags else c

    def deco(self, depth=0):
        c = super().deco(depth)
        return Deco(c.name + "X", c.arg) if c.name in self.tags else c

    def key(self):
        k = super().key()
        return k + "X" if k in MARKS else k

    def mimic(self, d):
        return self.object(d, loops=False)


class C24(DocCheck):
    id = "C24"
    rule = (
        "Documents of 1..10 declarations of all kinds, with and without line numbers, whose plain objects do not use the result format's own "
        "keys. Every declaration, decorator, data type, module detail, loop, condition, lambda, call and operator of the result is compared with "
        "the shape pycep.typing declares for its kind and type tag: required keys present, no undeclared key (numbered families may go on), "
        "declared literals and nested shapes respected. Non-trivial: at least three such nodes."
    )
    assumptions = [
        "value types the declarations narrow to the usual literal (decorator arguments, operands, loop sources) are not enforced: any expression may stand there",
    ]
    big = staticmethod(big.everything)
    quick_cases = 14000
    thorough_cases = 500000

    def setup(self):
        super().setup()
        self.types = t = Types()
        tags = set()
        for alias in ("Functions", "Decorator"):
            for cls in t.alternatives(ast.Name(alias)):
                tags.update(t.literals(t.shape(cls)[0]["type"]) or ())
        Gen24.tags = frozenset(tags - set(KNOWN_NAMES) - set(DECOS))

    def gen(self, src, tier):
        g = Gen24(src, tier=tier)
        text, _, _ = render_doc(src, g.several([(1, 5), (2, 4), (4, 2), (10, 1)]))
        return {"text": text}

    def run(self, case, ctx):
        if not hasattr(self, "types"):
            self.setup()
        for lines in (False, True):
            out = target.parse(case["text"], lines)
            if not out.ok:
                raise Violation(f"valid document rejected with {out.describe()}\n--- document\n{shown(case['text'])}")
            c = Checker(self.types)
            try:
                c.record(out.value, self.types.ns["BicepJson"], "$", True)
                for name, m in out.value.get("modules", {}).items():
                    c.pick({"type": m["type"], "detail": m["detail"]}, [self.types.ns[x] for x in MODULES], f"$.modules.{name}", True)
            except Violation as v:
                raise Violation(f"{v}\n--- document\n{shown(case['text'])}") from None
        ctx.label(*sorted(set(c.seen)))
        return len(c.seen) >= 3


CHECK = C24()
