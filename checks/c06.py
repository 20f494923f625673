"""C06: literals keep their exact value."""

from vlib.ast import Arr, Bool, Import, Int, Meta, MStr, Null, Str
from vlib import big
from vlib.common import DocCheck, place


class C06(DocCheck):
    id = "C06"
    rule = (
        "1..4 literals (strings assembled from escapes, interpolations with nested quotes, comment markers, separators and Unicode; "
        "multi-line strings; integers of 1..40 digits; booleans; null) each placed 0..6 constructs deep in one of 13 kinds of declaration "
        "and compared character by character. Non-trivial: a literal other than a plain short word."
    )
    assumptions = ["an unescaped quote inside a string only occurs within ${...} (Bicep's own rule)"]
    big = staticmethod(big.literals)
    quick_cases = 24000
    thorough_cases = 800000

    def literal(self, g):
        s = g.s
        k = s.weighted([("str", 12), ("mstr", 6), ("int", 4), ("bool", 1), ("null", 1), ("multi", 3)])
        if k == "str":
            return Str(g.raw())
        if k == "mstr":
            return MStr(g.mraw())
        if k == "int":
            return Int(g.digits())
        if k == "bool":
            return Bool(s.n(2) == 1)
        if k == "null":
            return Null()
        # several strings and multi-line strings next to each other
        return Arr([s.pick([lambda: Str(g.raw()), lambda: MStr(g.mraw())])() for _ in range(s.int(2, 5))])

    def decls(self, src, g):
        g.fuel = 6
        out = []
        for _ in range(src.weighted([(1, 5), (2, 3), (3, 1), (4, 1)])):
            r = src.n(14)
            if r == 12:
                out.append(Meta(g.name(), g.raw()))
            elif r == 13:
                out.append(Import([(g.name(), None)], g.raw(interp=False), True))
            else:
                out.append(place(g, self.literal(g)))
        return out

    def labels(self, decls):
        from vlib.common import walk

        out = set()
        for n in walk(decls):
            if isinstance(n, Str):
                if "${" in n.raw:
                    out.add("interpolation")
                    if n.raw.count("'") > n.raw.count("\\'"):
                        out.add("nested quotes")
                if "\\" in n.raw:
                    out.add("escape")
                if any(c in n.raw for c in ("//", "/*", "#")):
                    out.add("comment marker in string")
                if any(ord(c) > 127 for c in n.raw):
                    out.add("non-ASCII string")
                if len(n.raw) > 40:
                    out.add("long string")
            elif isinstance(n, MStr):
                out.add("multi-line string")
                if "'" in n.raw:
                    out.add("quote in multi-line string")
                if n.raw[:1] == "\n" or n.raw[:2] == "\r\n":
                    out.add("leading line break")
            elif isinstance(n, Int):
                if len(n.digits) > 15:
                    out.add("big integer")
                elif n.digits[0] == "0" and len(n.digits) > 1:
                    out.add("leading zero")
                elif len(n.digits) > 1:
                    out.add("integer")
            elif isinstance(n, (Bool, Null)):
                out.add("bool/null")
        return out


CHECK = C06()
