"""Generators of abstract syntax.  Choice 0 is always the simplest option (see engine.Source)."""

from __future__ import annotations

from . import target
from .ast import (
    Arr, Bang, Bin, Bool, Call, Child, Cond, Deco, Extension, FAcc, Func, Id, Idx, IfBody, Import, Int, Lam, Loop, Meta, Module,
    MStr, NsImport, Null, Object, Output, OPS, Par, Param, Prop, Resource, Scope, Str, TArr, TName, TUnion, TypeDecl, Un, Var,
    unpar,
)
from .tables import DECOS, KNOWN_NAMES, arity, namespace

KEYWORDS = [
    "targetScope", "import", "metadata", "param", "var", "output", "resource", "module", "type", "func", "extension", "existing",
    "for", "in", "if", "as", "with", "from", "items",
]
BASE_NAMES = ["a", "b", "c", "d", "e", "foo", "bar", "x1", "_x", "X", "loc", "name"]
TRICKY_NAMES = [
    "nullable", "nulls", "truest", "falsey", "trueValue", "forEach", "inner", "iffy", "sysadmin", "azure", "azX", "systems", "listKeys",
    "list", "getSecret", "resourceGroup", "__foo", "__", "_", "a_b_c", "A1", "x" * 60, "resources", "params", "variable", "existingOne",
    "concat", "description", "allowed", "secure", "minValue", "items2", "ItemS", "resourceId", "union", "type", "config", "condition",
    "loop_type", "function", "operator", "value", "default", "dependsOn", "scope", "parent", "properties", "string", "int", "bool",
    "object", "array", "any", "globals", "location", "id", "copy", "if1", "else", "this", "self", "None", "True", "False", "using",
    "listAll", "list_keys", "lists", "List", "getSecrets", "NULL", "Null", "TRUE", "undefined", "__proto__", "__init__", "__class__", "__name__", "__attrs__", "_0", "a__b", "x_", "nil", "NaN", "__start_line__",
]
NOT_VALUE = {"true", "false", "null", "sys", "az", "for", "if", "items", "resource"}
NOT_NAME = {"true", "false", "null", "sys", "az"}
RESERVED_KEYS = {"depends_on", "__child_resource__"}

TYPES = ["string", "int", "bool", "object", "array", "any", "customType", "secureString"]
CHARS = (
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-./:;,!?@#%^&*()[]+=~|<>\"`\t"
)
STR_PIECES = [
    "\\\\", "\\'", "\\n", "\\r", "\\t", "\\${", "\\${x}", "\\u{1F600}", "//", "/*", "*/", "#", "@", "\"", "{", "}", "[", "]", "(", ")", "é", "ß", "☃",
    "\U0001f600", "\u2028", "\u00a0", "${a}", "${a}-${b}", "${a.b}", "${f(1)}", "${a['k']}", "${'x'}", "${'${a}'}", "${f('a}b')}", "${a ? 'x' : 'y'}",
    "${a}${b}", "${-1}", "${'\\''}", "${a[0].b}", "${'}'}", "=>", "::", "$", "$$", "{0}", "null", "true", "123", " ", "  ", "import x from \\'y\\'", "${toLower('A${b}C')}",
    "${resourceGroup().id}", "\\\\\\'", "https://x.y/z?q=1#f", "@2020-01-01", "a@b@c", "\\\\n", "\\n\\n", "%", "''"[:0], "\ufeff", "\x7f", "ſ", "İ", "ǆ",
    "e\u0301", "\u212b", "\ufb01", "\u200d", "\u200b", "\u00ad", "\uff11", "\u0130", "\x0b", "\x0c", "\x85", "\x1f", "\u0fb2\u0f71\u0f80",
]
MSTR_PIECES = [
    "\n", "\n\n", "  ", "\t", "text", "'", "''", "\\", "\\n", "${x}", "{ }", "// c", "/* c */", "# c", "é☃", "\U0001f600", "\"", "'quoted'", "x = 1", "\r\n",
    "\n  - a\n  - b\n", "@", "\\'", "$", "end", "\u2028", "var x = 1\n", "]", ")",
    "\u00a0", "e\u0301", "\u212b", "\ufeff", "\x0b", "\x0c", "\x85", "\x1c", "\u200b", "\x7f", "  \n", "\n\t\n",
]


STRETCH = [9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 26, 27, 31, 32, 33, 40, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300]


# strings as documents have them; anything that guesses what a string means might fall for them
TYPICAL = [
    "Microsoft.Storage/storageAccounts", "Microsoft.Network/virtualNetworks/subnets", "a/b", "Microsoft.Web/sites@2021-02-01", "Microsoft.Resources", "providers/x", "2021-02-01", "2020-01-01-preview",
    "00000000-0000-0000-0000-000000000000", "/subscriptions/00000000-0000-0000-0000-000000000000/resourceGroups/rg", "/", "//", "rg/name", "my-rg", "https://a.blob.core.windows.net/c?sv=1&sig=%2B%3D#f",
    "10.0.0.0/16", "0.0.0.0", "::1", "*", "**/*.bicep", "./a.bicep", "br:x.azurecr.io/a:1", "a@b.com", "PT1H", "2024-01-01T00:00:00Z", "0 */5 * * * *", "{\"a\": 1}", "[1, 2]", "[parameters(\\'x\\')]", "[[a]", "[variables(a)]",
    "<a/>", "a=b;c=d", "a,b", "a|b", "a;b", "%s", "%d%%", "{0}", "{0:N2}", "{}", "${}"[1:], "$", "$$", "$x", "#a", "// a", "/* a", "a*/", "@a", "~", "~/a", "..", ".", "-", "--", "_", "0", "1", "-1", "+1", "1.5", "1e5", "0x1F", "007", "1_000", "Infinity", "NaN",
    "None", "True", "False", "null", "undefined", "yes", "on", "Y", "true ", " ", "  ", "\t", "a\tb", "a  b", " a", "a ", "\\n", "\\r\\n", "\\t", "\\\\", "\\$", "\\${a}", "\\u{1F600}", "\\\\server\\\\share", "C:\\\\a", "it\\'s", "\\'a\\'", "\\'", "\"", "\"a\"", "`a`",
    "resourceGroup", "subscription", "tenant", "managementGroup", "existing", "for", "if", "in", "items", "resource", "module", "param", "string", "int", "bool", "object", "array", "any", "secure", "sys.secure", "type", "function", "operator", "config", "condition",
    "decorators", "value", "default", "__name__", "__attrs__", "__child_resource__", "__class__", "depends_on", "arg_1", "operand_1", "linux", "AzureCloud", "Standard_LRS", "eastus2", "MIIB+/==", "QQ==", "ünïcödé", "日本", "\U0001f600",
]


class G:
    def __init__(self, src, fuel=None, max_depth=None, tier="quick"):
        self.s = src
        self.tier = tier
        if fuel is None:
            fuel = src.weighted([(6, 4), (15, 5), (40, 4), (90, 2), (250, 1)])
        self.fuel = fuel
        self.max_depth = max_depth if max_depth is not None else src.weighted([(2, 3), (4, 5), (7, 3), (12, 1)])
        self.stretched = False
        self.dict = target.dictionary()
        self.crlf = False
        self._words = None
        self.names = []  # identifiers of the case so far, to be used again in other roles
        self.raws = []
        self.values = []  # small values of the case so far

    def again(self, node):
        """Remembers a small value for being used once more, equal parts being a chance for mistakes."""
        o = []
        node.emit(o)
        if len(o) < 40 and len(self.values) < 12:
            self.values.append(node)
        return node

    def recall(self):
        """An identifier that occurred before in this case, or one made from such."""
        s = self.s
        n = s.pick(self.names)
        if s.n(2):
            return n
        r = s.n(8)
        if r < 2:
            return n + s.pick(["__", "__", "_", ""]) + s.pick(self.names)
        if r == 2:
            return n[: s.int(1, len(n))]
        if r == 3:
            t = n[s.n(len(n)) :]
            return t if not t[0].isdigit() else "_" + t
        if r == 4:
            return s.pick([n.lower(), n.upper(), n.swapcase(), n.capitalize()])
        if r == 5:
            return s.pick(["_", "__", "x"]) + n
        if r == 6:
            return n + s.pick(["_", "__", "2", "s", "0"])
        return n + n

    # ------------------------------------------------------------ sizes
    def size(self, lo=0, hi=12):
        """A count; mostly small, sometimes a number that occurs in the code under test (or a neighbour)."""
        s = self.s
        if not self.stretched and s.n(160) == 159:
            # once per document, far beyond the usual
            self.stretched = True
            cand = [n + k for n in self.dict["ints"] for k in (0, 1) if hi < n + k <= 300]
            v = s.pick(cand) if cand and s.n(2) else s.pick(STRETCH)
            self.fuel += 2 * v
            return v
        r = s.n(20)
        if r < 12:
            v = s.int(lo, min(hi, lo + 3))
        elif r < 18:
            v = s.int(lo, hi)
        else:
            cand = [n + k for n in self.dict["ints"] for k in (0, 1, -1) if lo <= n + k <= hi]
            v = s.pick(cand) if cand else s.int(lo, hi)
        return v

    # ------------------------------------------------------------ names
    def words(self):
        if self._words is None:
            self._words = [w for w in self.dict["words"] if w not in NOT_NAME]
        return self._words

    def name(self, value=False):
        s = self.s
        if self.names and s.n(8) == 7:
            n = self.recall()
            return n + "X" if n in (NOT_VALUE if value else NOT_NAME) else n
        r = s.n(20)
        if r < 10:
            n = s.pick(BASE_NAMES)
        elif r < 13:
            n = s.pick(KEYWORDS)
        elif r < 15:
            n = s.pick(TRICKY_NAMES)
        elif r < 17 and self.words():
            n = s.pick(self.words())
        elif r < 18:
            n = s.pick(BASE_NAMES) + s.pick(["1", "_", "X", "Resource", "_1"])
        elif s.n(30) == 29:
            n = s.pick("abX_") * s.pick([64, 65, 100, 128, 255, 256, 300]) + s.pick(["", "1", "_", "b"])
        else:
            n = s.pick("abcxyzABC_") + "".join(s.pick("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") for _ in range(self.size(0, 30)))
        if n in (NOT_VALUE if value else NOT_NAME):
            n = n + "X"
        self.note(n)
        return n

    def note(self, name):
        if len(self.names) < 40:
            self.names.append(name)

    # ------------------------------------------------------------ literals
    def raw(self, interp=True, quotes=True):
        """Text between single quotes, as written."""
        s = self.s
        if self.names and s.n(16) == 15:
            return self.recall()
        if interp and quotes and self.raws and s.n(16) == 15:
            return s.pick(self.raws)
        r = s.n(22)
        if r >= 20:
            t = s.pick(TYPICAL)
            t = t if quotes else t.replace("'", "").replace("\\", "")
            return t if interp else t.replace("${", "$ {")
        if r < 6:
            return s.pick(["a", "b", "abc", "foo", "x", "name", "eastus", ""])
        if r < 8 and self.dict["strings"]:
            t = s.pick(self.dict["strings"])
            if not any(c in t for c in "'\\\n\r$"):
                return t
            return "q"
        if r < 10:
            return s.pick(["sys.x", "az.x", "true", "null", "123", "-1", "a_b", "a.b.c", "http://a/b", "[a]", "{a}", "a b", " a ", "\\'", "\\\\", "'"[:0]])
        n = self.size(1, 8) if r < 19 else self.size(1, 60)
        out = []
        for _ in range(n):
            if s.n(2):
                p = s.pick(STR_PIECES)
            elif s.n(8) == 7:
                p = self.hole()
            else:
                p = "".join(s.pick(CHARS) for _ in range(s.int(1, 6)))
            if out and out[-1].endswith("$") and p.startswith("{"):
                out.append(" ")
            if p:
                out.append(p)
        t = "".join(out)
        if len(self.raws) < 20:
            self.raws.append(t)
        if not interp:
            t = "".join(p for p in out if "${" not in p).replace("${", "$ {")
        return t if quotes else t.replace("'", "").replace("\\", "")

    def hole(self):
        """An interpolation of one word, or a string of the code under test."""
        s = self.s
        r = s.n(4)
        if r == 3 and self.dict["strings"]:
            t = s.pick(self.dict["strings"])
            return t if not any(c in t for c in "'\\\n\r$") else "q"
        word = s.pick(["null", "true", "false", "1", "0", "''", "{}", "[]", "!a", "a!", "a.?b", "sys.a()", "-1"]) if r < 2 else self.name(value=True)
        return "${" + s.pick(["", "", "", " "]) + word + s.pick(["", "", "", " "]) + "}"

    def mraw(self):
        s = self.s
        out = []
        for _ in range(self.size(0, 12)):
            if s.n(3):
                out.append(s.pick(MSTR_PIECES))
            else:
                out.append("".join(s.pick(CHARS) for _ in range(s.int(1, 10))))
        t = "".join(out)
        while "'''" in t:
            t = t.replace("'''", "''x")
        return t + "." if t.endswith("'") else t

    def digits(self):
        s = self.s
        r = s.n(12)
        if r < 5:
            return str(s.int(0, 9))
        if r < 7:
            return s.pick(["0", "00", "007", "08", "010", "10", "100", "255", "256", "65536", "2147483647", "2147483648", "4294967296",
                           "9007199254740993", "9223372036854775807", "9223372036854775808", "1" + "0" * 40])
        if r < 9 and self.dict["ints"]:
            return str(max(0, s.pick(self.dict["ints"]) + s.pick([0, 1, -1])))
        return "".join(s.pick("0123456789") for _ in range(s.int(1, 25)))

    def atom(self, kinds=None):
        s = self.s
        self.fuel -= 1
        k = s.weighted(kinds or [("id", 6), ("int", 4), ("str", 6), ("bool", 2), ("null", 1), ("mstr", 1)])
        if k == "id":
            return Id(self.name(value=True))
        if k == "int":
            return Int(self.digits())
        if k == "str":
            return Str(self.raw())
        if k == "bool":
            return Bool(s.n(2) == 1)
        if k == "null":
            return Null()
        return MStr(self.mraw())

    def falsy(self):
        """Literals a truthiness test would confuse with 'absent'."""
        s = self.s
        self.fuel -= 1
        return s.pick([lambda: Int("0"), lambda: Str(""), lambda: Bool(False), lambda: Null(), lambda: Arr([]), lambda: Object([]), lambda: MStr("")])()

    # ------------------------------------------------------------ values
    def leafy(self, depth):
        return self.fuel <= 0 or depth >= self.max_depth

    def arg(self, depth):
        """Function argument."""
        s = self.s
        if s.n(8) == 7:
            return self.falsy()
        return self.expr(depth)

    def expr(self, depth=0, lam=True):
        """Any value."""
        s = self.s
        if self.leafy(depth):
            return self.atom()
        k = s.weighted(
            [("atom", 7), ("closed", 6), ("bin", 4), ("un", 2), ("cond", 2), ("prop", 4), ("nest", 1), ("lam", 1 if lam else 0)]
        )
        self.fuel -= 1
        d = depth + 1
        if k == "atom":
            return self.atom()
        if k == "closed":
            return self.closed(depth)
        if k == "bin":
            return self.binary(d)
        if k == "un":
            return self.unary(d)
        if k == "cond":
            test, yes = self.operand(d), self.expr(d)
            r = s.n(16)
            return Cond(test, test if r == 15 else yes, yes if r == 14 and not isinstance(yes, Cond) else test if r == 13 else self.expr(d))
        if k == "prop":
            return self.prop(d)
        if k == "nest":
            return self.prop(d, nested=True)
        return self.lam(d)

    def binary(self, d):
        left = self.operand(d)
        return Bin(self.s.pick(list(OPS)), left, self.expr(d) if self.s.n(12) < 11 else left)

    def unary(self, d):
        return Un(self.s.pick(["-", "!"]), self.expr(d))

    def lam(self, d):
        s = self.s
        n = s.weighted([(1, 5), (2, 3), (3, 1), (self.size(1, 8), 1)])
        return Lam([self.name(value=True) for _ in range(n)], self.expr(d), parens=s.n(3) == 1)

    def closed(self, depth):
        """A value that ends an operand: usable left of an operator."""
        s = self.s
        if self.leafy(depth):
            return self.atom()
        self.fuel -= 1
        if self.values and s.n(14) == 13:
            return s.pick(self.values)
        d = depth + 1
        k = s.weighted([("atom", 4), ("call", 6), ("arr", 4), ("obj", 4), ("par", 2), ("idx", 3), ("facc", 1), ("bang", 1)])
        if k == "atom":
            return self.atom()
        if k == "call":
            return self.again(self.call(d))
        if k == "arr":
            return self.again(self.array(d))
        if k == "obj":
            return self.mimic(d) if s.n(12) == 11 else self.again(self.object(d))
        if k == "par":
            return self.par(d)
        if k == "idx":
            return self.index(d)
        if k == "facc":
            return self.facc(d)
        return Bang(self.reference(d))

    def operand(self, depth):
        """Left operand of an operator."""
        s = self.s
        if s.n(3) < 2 or self.leafy(depth):
            return self.atom()
        return self.closed(depth)

    def reference(self, depth):
        """Something one can access a member of (no trailing '!')."""
        s = self.s
        if self.leafy(depth):
            return Id(self.name(value=True))
        self.fuel -= 1
        d = depth + 1
        k = s.weighted([("id", 8), ("call", 3), ("par", 1), ("idx", 3), ("facc", 1)])
        if k == "id":
            return Id(self.name(value=True))
        if k == "call":
            return self.call(d)
        if k == "par":
            return self.par(d)
        if k == "idx":
            return self.index(d)
        return self.facc(d)

    def par(self, d):
        s = self.s
        self.fuel -= 1
        inner = self.expr(d)
        if s.n(10) == 9:
            inner = s.pick([Par, Bang])(inner if isinstance(inner, (Id, Call, Par)) else Par(inner))
        return Par(inner)

    def index(self, d):
        s = self.s
        base = self.reference(d)
        if s.n(8) == 7:
            base = Bang(base)
        idx = s.weighted([("str", 3), ("int", 3), ("expr", 3)])
        if idx == "str":
            i = Str(self.raw())
        elif idx == "int":
            i = Int(self.digits())
        else:
            i = self.expr(d)
        return Idx(base, i, safe=s.n(6) == 5)

    ACC_NAMES = ["listKeys", "list", "List", "listSecrets", "listAccountSas", "getSecret", "listValue", "ListKeys", "listX"]

    def facc(self, d):
        s = self.s
        base = self.reference(d)
        return FAcc(base, s.pick(self.ACC_NAMES), [self.arg(d) for _ in range(s.weighted([(0, 4), (1, 3), (2, 2), (3, 1), (self.size(0, 6), 1)]))])

    def member(self, d):
        """Right side of '.': starts with an identifier or a call."""
        s = self.s
        if self.leafy(d):
            return Id(self.name(value=True))
        self.fuel -= 1
        k = s.weighted([("id", 8), ("call", 3), ("idx", 3), ("facc", 1), ("chain", 5), ("bin", 2), ("cond", 1), ("bang", 1)])
        if k == "id":
            return Id(self.name(value=True))
        if k == "call":
            return self.call(d, member=True)
        if k == "idx":
            return Idx(self.member_base(d), self.expr(d + 1), safe=s.n(6) == 5)
        if k == "facc":
            return FAcc(self.member_base(d), s.pick(self.ACC_NAMES), [self.arg(d + 1) for _ in range(s.int(0, 2))])
        if k == "chain":
            return Prop(self.member_base(d), self.member(d + 1), safe=s.n(6) == 5)
        if k == "bin":
            return Bin(s.pick(list(OPS)), self.member_base(d), self.expr(d + 1))
        if k == "cond":
            return Cond(self.member_base(d), self.expr(d + 1), self.expr(d + 1))
        return Bang(Id(self.name(value=True)))

    def member_base(self, d):
        s = self.s
        if self.leafy(d):
            return Id(self.name(value=True))
        k = s.weighted([("id", 8), ("call", 2), ("idx", 3), ("bang", 1)])
        if k == "id":
            return Id(self.name(value=True))
        self.fuel -= 1
        if k == "call":
            return self.call(d + 1, member=True)
        if k == "idx":
            return Idx(self.member_base(d + 1), self.expr(d + 1), safe=s.n(6) == 5)
        return Bang(Id(self.name(value=True)))

    def prop(self, d, nested=False):
        s = self.s
        if not nested and s.n(16) == 15 and not self.leafy(d):
            # of a literal, mostly one of its own properties
            base = self.object(d) if s.n(4) else self.mimic(d)
            keys = [k for k, *_ in base.pairs if k.isidentifier() and k not in NOT_VALUE]
            right = Id(s.pick(keys)) if keys and s.n(4) else self.member(d)
            return Prop(Par(base) if s.n(3) == 2 else base, right, safe=s.n(6) == 5)
        base = self.reference(d)
        if s.n(10) == 9:
            base = Bang(base)
        if nested:
            right = Id(self.name(value=True))
            if s.n(3) == 2:
                right = Prop(right, self.member(d + 1))
            elif s.n(4) == 3:
                right = Prop(right, Id(self.name(value=True)), nested=True)
            return Prop(base, right, nested=True)
        return Prop(base, self.member(d), safe=s.n(6) == 5)

    UNKNOWN_FUNCS = [
        "foo", "myFunc", "my_func", "_f", "map", "reduce", "sort", "toObject", "items", "parseCidr", "cidrHost", "sys.map", "sys.items",
        "az.foo", "sys.resourceId", "az.concat", "F1", "x", "Concat", "CONCAT", "resourceid", "toupper", "objectKeys", "tryGet", "nameof",
        "listSas", "getSecrets", "sys.deployer", "if1", "forX", "a9", "for", "in", "var", "param", "resource", "output", "type", "any_", "list_keys",
    ]

    def call(self, d, member=False, name=None):
        s = self.s
        if name is None:
            r = s.n(10)
            if r < 6:
                name = s.pick(KNOWN_NAMES)
                if s.n(4) == 3:
                    name = s.pick([n for n in self.names if n in KNOWN_NAMES] or [name])
                else:
                    self.note(name)
            elif r < 9:
                name = s.pick(self.UNKNOWN_FUNCS)
            else:
                name = self.name()
                if name in ("if", "items", "true", "false", "null"):
                    name += "X"
            if member:
                # list* and getSecret directly after a dot are a different construct
                name = name.split(".")[-1]
                if name.lower().startswith("list") or name == "getSecret" or name == "if":
                    name = "x" + name
        base = name
        if base in KNOWN_NAMES:
            lo, hi = arity(base)
            r = s.n(4)
            if hi is None:
                n = lo if r == 0 else self.size(lo, lo + 6)
            else:
                n = lo if r == 0 else (hi if r == 1 and hi <= lo + 3 else s.int(lo, hi))
            if not member and s.n(4) == 3:
                name = f"{namespace(base)}.{base}"
        else:
            n = s.weighted([(0, 2), (1, 4), (2, 3), (3, 2), (self.size(0, 14), 1)])
        usual = 3 if base in KNOWN_NAMES and ("esource" in base or "eference" in base or "ones" in base) else 12
        args = [Str(s.pick(TYPICAL)) if s.n(usual) == usual - 1 else self.arg(d) for _ in range(n)]
        if n > 1 and s.n(10) == 9:
            args[s.n(n)] = args[s.n(n)]
        return Call(name, args)

    def array(self, d, n=None):
        s = self.s
        if n is None:
            n = self.size(0, 12) if self.fuel > 10 else s.int(0, 3)
        items = []
        for i in range(n):
            if self.fuel < -20:
                break
            items.append(self.expr(d))
        if len(items) > 1 and s.n(10) == 9:
            items[s.n(len(items))] = items[s.n(len(items))]
        return Arr(items)

    def key(self):
        s = self.s
        r = s.n(10)
        if r < 7:
            k = self.name()
            if r == 6:
                k = s.pick(["resource", "for", "if", "type", "items", "existing", "sys", "az", "true", "false", "null"])
        elif r < 9:
            k = "'" + s.pick(["a", "a.b", "run.csx", "a-b", "a b", "1", "", "x/y", "é", "true", "hidden-title", "a_b", "@x", "foo:bar", "a.b.c", "\\'", "name"]) + "'"
        else:
            k = "'" + self.raw() + "'"
        return k + "X" if k in RESERVED_KEYS else k

    def object(self, d, n=None, dups=True, loops=True, nullable=False):
        s = self.s
        if n is None:
            n = self.size(0, 12) if self.fuel > 10 else s.int(0, 3)
        pairs = []
        keys = set()
        for _ in range(n):
            if self.fuel < -20:
                break
            k = self.key()
            if k in keys and not (dups and s.n(4) == 3):
                k = f"k{len(keys)}"
                if k in keys:
                    continue
            keys.add(k)
            mark = False
            if loops and s.n(12) == 11 and not self.leafy(d):
                v = self.loop(d)
            elif nullable and s.n(4) == 3:
                # the nullable marker follows a type: a value that cannot continue
                v, mark = self.closed(d), True
            else:
                v = self.expr(d)
            pairs.append((k, v, mark))
        return Object(pairs)

    def mimic(self, d):
        """A plain object written with the very keys results are made of."""
        s = self.s
        self.fuel -= 2
        v = lambda: self.arg(d + 1) if s.n(4) == 3 else self.atom()  # noqa: E731
        o = lambda *pairs: Object([(k, x, False) for k, x in pairs])  # noqa: E731
        small = lambda: o(*[(f"k{i}", v()) for i in range(s.n(3))])  # noqa: E731
        k = s.n(12)
        if k == 0:
            return o(("condition", v()), ("config", small()))
        if k == 1:
            return o(("loop_type", small()), ("condition", v()), ("config", small()))
        if k == 2:
            return o(("operator", o(("type", Str("minus")), ("operands", o(("integer_value", Id("a")))))))
        if k == 3:
            return o(("function", o(("type", Str("if")), ("parameters", o(("arg_1", v()))))))
        if k == 4:
            return o(("function", v()))
        if k == 5:
            return o(("operator", o(("type", Str("property_accessor")), ("operands", o(("operand_1", v()), ("operand_2", v()))))))
        if k == 6:
            return o(("type", Str(s.pick(["array", "union", "lambda_expression", "local"]))), ("item_type", v()), ("members", v()), ("detail", small()))
        if k == 7:
            return o(("name", v()), ("alias", v()))
        if k == 8:
            return o(("__name__", v()), ("__attrs__", small()))
        if k == 9:
            return o(("decorators", Arr([])), ("type", v()), ("api_version", v()), ("existing", Bool(True)), ("config", small()))
        if k == 10:
            return o(("globals", small()), ("scope", o(("value", Str("tenant")))))
        return o(("config", small()))

    # ------------------------------------------------------------ loops and conditions
    def loop(self, d, body=None, cond=None):
        s = self.s
        self.fuel -= 1
        kind = s.weighted([("array", 4), ("array_index", 3), ("object", 2)])
        names = [self.loop_name(), self.loop_name()]
        r = s.n(4)
        if r < 1 or self.leafy(d):
            source = Id(self.name(value=True))
        elif r < 2:
            source = self.call(d + 1, name=s.pick(["range", "items", "concat", "foo"]))
        elif r < 3:
            source = self.prop(d + 1)
        else:
            source = self.expr(d + 1, lam=False)
        if isinstance(source, Cond):
            source = Par(source)
        c = None
        if cond or (cond is None and s.n(3) == 2):
            c = self.expr(d + 1)
            if s.n(6) == 5:
                f = s.pick(["iff", "If", "IF", "if_", "if1", "ifX", "i", "_if", "unless", "when"]) if s.n(2) else self.name(value=True)
                c = self.call(d + 1, name=f)
            if isinstance(unpar(c), Object) and any(k == "function" for k, *_ in unpar(c).pairs):
                # a literal object is no condition; this one would be mistaken for a call
                c = Bin("==", c, self.atom())
        if body is None:
            body = self.object(d + 1, loops=False) if s.n(2) else self.expr(d + 1)
            if c is not None:
                body = self.object(d + 1, loops=False)
        return Loop(kind, names, source, c, body)

    def loop_name(self):
        n = self.name(value=True)
        return n + "X" if n == "in" else n

    def deploy_body(self, d=0, resource=False, child_depth=0, p_loop=3, p_if=3):
        """Body of a resource or module."""
        s = self.s
        k = s.weighted([("plain", 8), ("loop", p_loop), ("if", p_if)])
        obj = self.body_object(d, resource, child_depth)
        if k == "loop":
            return self.loop(d, body=obj)
        if k == "if":
            return IfBody(self.expr(d + 1), obj)
        return obj

    def body_object(self, d, resource, child_depth):
        s = self.s
        obj = self.mimic(d + 1) if s.n(16) == 15 else self.object(d + 1)
        if resource and child_depth > 0 and s.n(2):
            obj.children.append((s.int(0, len(obj.pairs)), self.child(d + 1, child_depth - 1)))
        return obj

    def child(self, d, child_depth):
        s = self.s
        return Child(self.name(), self.child_type(), s.n(4) == 3, self.deploy_body(d, True, child_depth))

    def child_type(self):
        s = self.s
        if s.n(6) == 5:
            t = "".join(s.pick(["/", ".", "-", "_", " ", "A", "b", "sites/", "é", "${x}", "\\'", "0", ":", "(", "#", "//x", "?"]) for _ in range(s.int(1, 5)))
        else:
            t = s.pick(["subnets", "blobServices", "default", "a", "x-y", "a.b", "databases", "A/b", "fileServices/shares"])
        # a child may name an API version of its own
        return f"{t}@{self.version() or '1'}" if s.n(5) == 4 else t

    # ------------------------------------------------------------ references
    PROVIDERS = ["Microsoft.Storage/storageAccounts", "Microsoft.Network/virtualNetworks", "A.B/c", "Microsoft.Web/sites/config", "a/b", "Custom", "microsoft.x/y-z_1",
                 "Microsoft.Authorization/roleAssignments", "Microsoft.Storage/storageAccounts/blobServices/containers", "Kubernetes.core/Pod", "radius.dev/Container"]
    VERSIONS = ["2021-02-01", "2020-01-01-preview", "1", "v1", "2019-06-01-alpha", "2023-11-01", "1.0.0", "2022-09-01-privatepreview", "v1alpha3"]

    def res_type(self):
        s = self.s
        if s.n(3) < 2:
            return s.pick(self.PROVIDERS)
        if s.n(6) == 5:
            # nothing is said about what a type looks like, apart from its @
            return "".join(s.pick(["/", "//", ".", "-", "_", " ", "A", "b", "Microsoft.Web/sites", "sites/", "é", "${x}", "\\'", "0", ":", "(", "#", "//x", "/*", "?", "A.B/c"]) for _ in range(s.int(1, 6)))
        return ".".join(self.word("-_") for _ in range(s.int(1, 3))) + "".join("/" + self.word("-_.") for _ in range(s.int(1, 4)))

    def version(self):
        s = self.s
        if s.n(16) == 15:
            return "".join(s.pick([" ", "-", ".", "V", "v", "2020-01-01", "PREVIEW", "é", "${v}", "/", "", "0"]) for _ in range(s.int(1, 4)))
        return s.pick(self.VERSIONS) if s.n(3) < 2 else self.word("-.")

    def word(self, extra="", lo=1, hi=12):
        s = self.s
        if s.n(6) == 5 and self.words():
            return s.pick(self.words())
        alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
        w = s.pick(alpha)
        for _ in range(self.size(lo, hi) - 1):
            w += s.pick(extra) if extra and s.n(5) == 4 else s.pick(alpha)
        if "." in extra and s.n(12) == 11:
            w += s.pick([".bicep", ".json", ".azurecr.io", ".com", ".0", "-preview" if "-" in extra else ".x", ".bicepparam", ".arm"])
        return w

    def path(self, extra="-", segs=4):
        if self.s.n(16) == 15:
            return self.s.pick(["", "/", "-"]) + "/".join(self.s.pick(["", ".", "..", "-", "é", "A", "a", "0", "_"]) + self.word(extra) for _ in range(self.s.int(1, segs))) + self.s.pick(["", "/", ".", "//"])
        return "/".join(self.word(extra) for _ in range(self.s.int(1, segs)))

    def module_ref(self, kind=None):
        """(raw text, type, detail)"""
        s = self.s
        kind = kind or s.weighted([("local", 5), ("br", 2), ("br_public", 2), ("br_alias", 2), ("ts", 2), ("ts_alias", 2)])
        tag = s.pick(["1.0.1", "v1", "latest", "2021.01-preview", "1"]) if s.n(2) else self.word(".-")
        if kind == "local":
            r = s.n(8)
            if r < 4:
                p = s.pick(["main.bicep", "./a.bicep", "../m/x.bicep", "modules/a b.bicep", "br.bicep", "brx:a/b:1", "ts.bicep", "tsx:1", "a/br:b:c", "x.json",
                            "br", "ts", "b", "modules/storage-account.bicep", "é.bicep", "BR:foo.azurecr.io/a:1", "TS/alias:x:1", " br:mcr.microsoft.com/a:1", "bravo/ts:x",
                            "br/net.bicep", "ts/main.bicep", "ts/a/b.bicep"])
            elif r < 6:
                p = s.pick(["./", "../", "", "../../", "modules/"]) + self.path("-. ") + ".bicep"
            else:
                p = "m/" + self.raw(interp=False, quotes=False) + ".bicep"
            return p, "local", {"full": p, "path": p}
        if kind == "br_public":
            path = self.path("-.")
            raw = f"br:mcr.microsoft.com/{path}:{tag}"
            return raw, "bicep_registry", {"full": raw[3:], "registry_name": "mcr.microsoft.com", "path": path, "tag": tag, "public": True}
        if kind == "br":
            reg = s.pick(["contoso", "exampleregistry", "a1", "mcr", "public", "microsoft", "br", "mcrmicrosoft"]) if s.n(2) else self.word()
            path = self.path("-.")
            raw = f"br:{reg}.azurecr.io/{path}:{tag}"
            return raw, "bicep_registry", {"full": raw[3:], "registry_name": reg, "path": path, "tag": tag, "public": False}
        if kind == "br_alias":
            alias = s.pick(["public", "contoso", "Public", "publicx", "my_alias", "my-alias", "notpublic", "public2", "pub"]) if s.n(3) else self.word("-")
            path = self.path("-.")
            raw = f"br/{alias}:{path}:{tag}"
            return raw, "bicep_registry_alias", {"full": raw[3:], "alias": alias, "path": path, "tag": tag, "public": alias == "public"}
        if kind == "ts":
            sub = s.pick(["00000000-0000-0000-0000-000000000000", "11111111-2222-3333-4444-555555555555", "1", "12345678-9012-3456-7890-123456789012"])
            rg = s.pick(["rg", "my-rg", "rg_1", "a.b", "rg(1)", "RG-(x)_y.z"]) if s.n(2) else self.word("-._()")
            name = s.pick(["spec", "my-spec", "a.b", "x_y"]) if s.n(2) else self.word("-.")
            raw = f"ts:{sub}/{rg}/{name}:{tag}"
            return raw, "template_spec", {"full": raw[3:], "subscription_id": sub, "resource_group_id": rg, "name": name, "version": tag}
        alias = s.pick(["contoso", "public", "a", "my_alias", "my-specs"]) if s.n(2) else self.word("-")
        path = self.path("-.", 2)
        raw = f"ts/{alias}:{path}:{tag}"
        return raw, "template_spec_alias", {"full": raw[3:], "alias": alias, "path": path, "tag": tag}

    # ------------------------------------------------------------ data types
    def dtype(self, depth=0):
        s = self.s
        r = s.n(10)
        if r < 6 or depth > 3:
            n = s.pick(TYPES) if s.n(4) else self.name()
            return TName(n)
        if r < 9:
            return TArr(self.dtype(depth + 1))
        members = [self.dtype(depth + 1) for _ in range(s.weighted([(2, 3), (3, 2), (self.size(2, 6), 1)]))]
        if s.n(6) == 5:
            members[s.n(len(members))] = members[s.n(len(members))]
        return TUnion(members)

    # ------------------------------------------------------------ decorators
    UNKNOWN_DECOS = ["foo", "discriminator", "onlyIfNotExists", "retryOn", "waitUntil", "sys.foo", "Secure", "desc", "x1", "sys.discriminator", "deprecated", "userDefined"]

    def deco(self, depth=0):
        s = self.s
        r = s.n(8)
        if r < 6:
            base = s.pick(list(DECOS))
            name = base if s.n(4) < 3 else "sys." + base
            if not DECOS[base][1]:
                return Deco(name, None)
            if base in ("minValue", "maxValue"):
                k = s.n(7)
                if k < 3:
                    return Deco(name, Int(self.digits()))
                if k < 5:
                    return Deco(name, Un("-", Int(self.digits())))
                if k < 6:
                    return Deco(name, Un("-", self.atom()))
                return Deco(name, self.arg(depth + 1))
            if base in ("minLength", "maxLength", "batchSize"):
                return Deco(name, Int(self.digits()) if s.n(4) else self.arg(depth + 1))
            if base == "description":
                return Deco(name, s.pick([lambda: Str(self.raw()), lambda: MStr(self.mraw())])() if s.n(5) else self.arg(depth + 1))
            if base == "allowed":
                return Deco(name, self.array(depth + 1) if s.n(5) else self.arg(depth + 1))
            return Deco(name, self.object(depth + 1) if s.n(5) else self.arg(depth + 1))
        name = s.pick(self.UNKNOWN_DECOS) if s.n(3) else self.word().replace("_", "")
        if not name or name.startswith("sys") and not name.startswith("sys."):
            name = "x" + name
        if name.removeprefix("sys.") in DECOS:
            name += "X"
        return Deco(name, None if s.n(2) else self.arg(depth + 1))

    def decos(self, p=3):
        s = self.s
        if s.n(8) >= p:
            return []
        return [self.deco() for _ in range(s.weighted([(1, 4), (2, 3), (3, 2), (self.size(1, 8), 1)]))]

    # ------------------------------------------------------------ declarations
    KINDS = [
        ("var", 6), ("param", 5), ("resource", 4), ("module", 3), ("output", 4), ("type", 2), ("func", 2), ("meta", 2), ("scope", 1),
        ("import", 2), ("nsimport", 1), ("extension", 2),
    ]

    def decl(self, kind=None, name=None, child_depth=2, kinds=None):
        s = self.s
        kind = kind or s.weighted(kinds or self.KINDS)
        self.fuel -= 1
        if not name and s.n(12) == 11:
            name = s.pick(KNOWN_NAMES)
            self.note(name)
        name = name or self.name()
        if kind == "var":
            value = self.loop(0) if s.n(8) == 7 else self.expr(0)
            t = self.dtype() if s.n(6) == 5 else None
            return Var(self.decos(), name, value, t, t is not None and s.n(3) == 2)
        if kind == "param":
            return Param(self.decos(5), name, self.dtype(), s.n(6) == 5, None if s.n(3) == 0 else self.arg(0))
        if kind == "output":
            value = self.loop(0) if s.n(8) == 7 else self.expr(0)
            return Output(self.decos(), name, self.dtype(), s.n(8) == 7, value)
        if kind == "resource":
            return Resource(self.decos(), name, self.res_type(), self.version(), s.n(5) == 4, self.deploy_body(0, True, child_depth))
        if kind == "module":
            return Module(self.decos(), name, self.module_ref(), self.deploy_body(0))
        if kind == "type":
            if s.n(3):
                members = [self.object(0, nullable=True, loops=False, dups=False) if s.n(2) else self.expr(0, lam=False)]
            else:
                n = s.weighted([(2, 3), (3, 2), (self.size(2, 8), 1)])
                members = [self.atom([("str", 5), ("id", 3), ("int", 2)]) for _ in range(n)]
                if s.n(6) == 5:
                    members[s.n(n)] = members[s.n(n)]
            return TypeDecl(self.decos(), name, members)
        if kind == "func":
            n = s.weighted([(0, 2), (1, 3), (2, 3), (3, 1), (self.size(0, 8), 1)])
            params = []
            for _ in range(n):
                p = self.name()
                if p not in [x for x, _ in params]:
                    params.append((p, self.dtype()))
            return Func(self.decos(), name, params, self.dtype(), self.expr(0, lam=False))
        if kind == "meta":
            return Meta(name, self.raw())
        if kind == "scope":
            return Scope(s.pick(["subscription", "resourceGroup", "managementGroup", "tenant"]))
        if kind == "import":
            if s.n(4) == 3:
                return Import([("*", self.name() if s.n(4) else None)], self.import_path(), False)
            n = s.weighted([(1, 3), (2, 3), (3, 1), (self.size(1, 8), 1)])
            names = [(self.name() if (i or name is None) else name, self.name() if s.n(3) == 2 else None) for i in range(n)]
            return Import(names, self.import_path(), s.n(4) > 0)
        if kind == "nsimport":
            if s.n(5) == 4:
                return NsImport(name)
            return NsImport(s.pick(["az@1.0.0", "kubernetes@1.0.0", "sys@1.0.0", "microsoftGraph@1.0.0"]) if s.n(3) else self.word("-@.") or "x")
        if kind == "extension":
            return Extension(name, self.object(0, loops=False) if s.n(2) else None, self.name() if s.n(2) else None)
        raise AssertionError(kind)

    def import_path(self):
        s = self.s
        return s.pick(["exports.bicep", "./x.bicep", "br:a.azurecr.io/b:1", "../a b.bicep", "x"]) if s.n(2) else self.raw(interp=False)

    def several(self, weights, **kw):
        """A few declarations; rarely very many small ones."""
        s = self.s
        if s.n(60) == 59:
            self.fuel = 0
            self.stretched = True
            return [self.decl(**kw) for _ in range(s.int(20, 150))]
        return [self.decl(**kw) for _ in range(s.weighted(weights))]

    def doc(self, n=None, kinds=None, unique=False, child_depth=2):
        s = self.s
        if n is None:
            n = s.weighted([(1, 4), (2, 4), (3, 3), (self.size(0, 10), 3), (self.size(0, 25), 1)])
        decls = []
        used = set()
        for i in range(n):
            d = self.decl(kinds=kinds, child_depth=child_depth)
            if unique:
                uniquify(d, used)
            decls.append(d)
            if self.fuel < -30:
                break
        return decls


def uniquify(d, used):
    """Makes the names the declaration records distinct from all earlier ones."""
    if isinstance(d, (Import,)):
        names = []
        for n, a in d.names:
            if n == "*":
                if ("imports", "*") in used:
                    n = "all"
            base, i = n, 0
            while ("imports", n) in used:
                i += 1
                n = f"{base}{i}"
            used.add(("imports", n))
            names.append((n, a))
        d.names = names
        if len(names) > 1:
            d.braces = True
        return
    if isinstance(d, NsImport):
        base, i = d.path, 0
        while ("imports", d.path) in used:
            i += 1
            d.path = f"{base}{i}"
        used.add(("imports", d.path))
        return
    if isinstance(d, Scope):
        return
    sec = type(d).__name__
    base, i = d.name, 0
    while (sec, d.name) in used:
        i += 1
        d.name = f"{base}{i}"
    used.add((sec, d.name))
