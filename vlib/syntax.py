"""Bicep surface syntax: token emission with layout slots, and layouts."""

from __future__ import annotations

# ---------------------------------------------------------------- layout slots
W = ("W",)  # optional inline space
S = ("S",)  # mandatory inline space
V = ("V",)  # optional plain line break (before an atom)
C1 = ("C1",)  # at most one (comment +) line break
CS = ("CS",)  # any number of (comment +) line breaks
CP = ("CP",)  # at least one (comment +) line break
D = ("D",)  # any number of (comment +) line breaks after a decorator
T = ("T",)  # between top level declarations: at least one
SEPO = ("SEPO",)  # object pair separator: comma or line break(s)
SEPO_NL = ("SEPO_NL",)  # separator next to a child resource: line break(s) only
SEPA = ("SEPA",)  # array separator: comma and/or line break(s)

WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@$#'")
PUNCT = set("=<>!&|?:.-+*/%~")


class Mark(tuple):
    """Start ('<') or end ('>') of the declaration with the given key."""


def first_char(toks, i):
    for t in toks[i:]:
        if isinstance(t, str) and t:
            return t[0]
    return ""


class Canonical:
    """One fixed, conventional layout."""

    nl = "\n"

    def __init__(self, indent=True):
        self.depth = 0

    def gap(self, kind, prev, nxt):
        k = kind[0]
        if k == "W":
            return " " if sticky(prev, nxt) else ""
        if k == "S":
            return " "
        if k in ("V", "C1", "CS"):
            return " " if sticky(prev, nxt) else ""
        if k == "SEPA":
            return ", "
        return self.nl


class Far(Canonical):
    """Conventional, but every few line breaks (or inline gaps) are very long."""

    def __init__(self, n, every=3, filler="\n", kinds=("T", "D", "CS", "CP", "SEPO", "SEPO_NL", "SEPA"), nl="\n"):
        super().__init__()
        self.n, self.every, self.filler, self.kinds, self.nl = n, every, filler, kinds, nl
        self.seen = 0

    def gap(self, kind, prev, nxt):
        if kind[0] in self.kinds:
            self.seen += 1
            if self.seen % self.every == 0:
                run = self.filler * self.n
                return f" {run}" if kind[0] in ("W", "S") else run + (self.nl if "\n" not in self.filler else "")
        return super().gap(kind, prev, nxt)


def sticky(prev, nxt):
    """Would the two characters merge into another token when adjacent?"""
    if not prev or not nxt:
        return False
    return (prev in WORD and nxt in WORD) or (prev in PUNCT and nxt in PUNCT)


LINE_COMMENTS = [
    "//", "// comment", "// don't", "// { [ (", "// ) ] }", "//// x = 1", "// /* x", "// */", "// 'a' // b",
    "// param x string", "// ${x}", "// '''a''' ", "// é ☃ \U0001f600", "// @secure()", "// # x", "// \\", "//\tx\t", "// if (a) {", "// '''", "// it'''s",
]
BLOCK_COMMENTS = [
    "/**/", "/* c */", "/* don't */", "/* { [ ( */", "/* // x */", "/* a\n b */", "/***/", "/* * / */", "/* ' */", "/* é ☃ */",
    "/* ''' ''' */", "/* var x = 1 */", "/*\n\n*/", "/* # x */", "/* a */ /* b */", "/* a **/", "/* \\ */", "/* \"x\" */", "/* ''' */", "/*\n'''\n*/",
]
DIRECTIVES = ["#disable-next-line no-unused-params", "# x", "#", "#x ' {", "# /* ", "# // a", "# '''"]


class Random:
    """A layout whose every free choice comes from a Source; choice 0 is the plainest one."""

    def __init__(self, src, crlf=False, comments=True, level=3):
        self.src = src
        self.crlf = crlf
        self.comments = comments
        self.level = level
        self.stats = set()

    def eol(self):
        if self.crlf:
            return "\r\n"
        return "\n"

    def nl(self, allow_comment=True):
        """One line break token (a run of line breaks, optionally preceded by a comment)."""
        s = self.src
        r = s.n(16)
        if r < 9 or not self.comments:
            lead = s.pick(["", " ", "\t", "   "]) if r > 6 else ""
        elif r < 12 and allow_comment:
            lead = s.pick([" ", "", "  "]) + s.pick(LINE_COMMENTS)
            self.stats.add("line-comment")
        elif r < 14:
            lead = " " + s.pick(BLOCK_COMMENTS) + s.pick(["", " "])
            self.stats.add("block-comment")
        else:
            lead = " " + s.pick(DIRECTIVES)
            self.stats.add("directive")
        n = 1 if s.n(4) < 3 else s.int(2, 4)
        return lead + self.eol() * n

    def indent(self):
        s = self.src
        if s.n(12) == 11:
            return s.pick([" ", "\t", "\t ", " \t"]) * s.pick([3, 4, 5, 8, 12, 40, 100])
        return s.pick(["", "  ", "    ", "\t", " "])

    def inline(self, must):
        s = self.src
        r = s.n(24)
        if r < 16:
            return " " if (must or r % 2) else ""
        if r < 20 or not self.comments:
            return s.pick([" ", "  ", "\t", " \t ", "\t\t", " " * 10, "\t" * 8])
        self.stats.add("block-comment")
        return " " + s.pick(BLOCK_COMMENTS) + " "

    def many(self, lo, hi):
        s = self.src
        n = s.weighted([(lo, 10), (lo + 1, 3), (lo + 2, 1), (hi, 1)])
        n = min(n, hi)
        return "".join(self.nl() + self.indent() for _ in range(n))

    def gap(self, kind, prev, nxt):
        k = kind[0]
        s = self.src
        if k == "W":
            return self.inline(sticky(prev, nxt))
        if k == "S":
            return self.inline(True)
        if k == "V":
            if s.n(8) < 7:
                return self.inline(sticky(prev, nxt))
            self.stats.add("value-on-new-line")
            return self.nl(allow_comment=False) + self.indent()
        if k == "C1":
            if s.n(6) < 4:
                return self.inline(sticky(prev, nxt))
            return self.nl() + self.indent()
        if k == "CS":
            if s.n(3) < 1:
                return self.inline(sticky(prev, nxt))
            return self.many(1, 12 if s.n(8) == 7 else 5)
        if k == "CP":
            return self.many(1, 5)
        if k == "T":
            return self.many(1, 6)
        if k == "D":
            return self.many(1, 40 if s.n(6) == 5 else 10) if s.n(8) else self.inline(True)
        if k in ("SEPO", "SEPA", "SEPO_NL"):
            if k == "SEPO_NL" or s.n(3) < 2:
                return self.many(1, 5)
            self.stats.add("comma")
            out = self.inline(False) + ","
            if k == "SEPA" and s.n(4) == 3:
                return out + self.many(1, 5)
            return out + self.inline(False)
        raise AssertionError(k)


def render(toks, layout, begin="", end="\n"):
    """Text plus {key: (start line, end line)} for the marked declarations."""
    out = [begin]
    prev = ""
    line = 1 + begin.count("\n")
    last = line
    spans: dict = {}
    pending = []
    for i, t in enumerate(toks):
        if isinstance(t, Mark):
            if t[0] == "<":
                pending.append(t[1])
            else:
                spans[t[1]] = (spans[t[1]], last)
            continue
        if isinstance(t, str):
            for key in pending:
                spans[key] = line
            pending = []
            out.append(t)
            line += t.count("\n")
            last = line
            if t:
                prev = t[-1]
            continue
        g = layout.gap(t, prev, first_char(toks, i + 1))
        if g:
            out.append(g)
            line += g.count("\n")
    out.append(end)
    return "".join(out), spans
