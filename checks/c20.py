"""C20: any text yields a result or a documented error; ill-formed text is rejected."""

from vlib import target
from vlib.ast import doc_tokens
from vlib.common import render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G
from vlib.syntax import Canonical, Mark, Random, render
from vlib.values import same

from .c19 import scan

BRACKETS = "()[]{}"
STRAY = ["$", ";", "`", "^", "\"", "\\", "&", "|", "~", "'", "€", "\x00", "\x0c", "\ufeff", "é", "§", "\ud800", "=>>", "''' ", ")", "]", "}", "\r", "\u2028"]
SOUP = [
    "param", "var", "output", "resource", "module", "type", "func", "import", "extension", "metadata", "targetScope", "existing", "for", "in", "if", "as", "with",
    "from", "items", "=", "==", "=>", "?", "??", ":", "::", ".", ",", "(", ")", "[", "]", "{", "}", "!", "-", "+", "*", "/", "%", "|", "||", "&&", "<", ">=", "=~", "!~",
    "@", "@secure()", "'a'", "'a@b'", "'''x'''", "'${a}'", "0", "12", "null", "true", "false", "a", "b", "foo(", "az.f(", "sys.g(", "listKeys(", "getSecret(", "\n", "\n\n",
    " ", "\r\n", "// c\n", "/* c */", "# c\n", "string", "int", "'resourceGroup'", "*", "\t", "'br:a.azurecr.io/b:1'", "'ts/a:b:1'", "items(", "if (", "resourceId(", "minValue(",
]
JUNK = ["\x00", "\x1a", "\x04", "\ufeff", "\u200b", "\x0c", "\x0b", "\x85", "\u2028", "\xa0", "\u3000", "\x7f", ";", "$", "^", "`", "\\", "\"", "&", "~", "§", "€", "\ufffd", "\udfff", "'", ")", "]", "}", "-->", "<?", "...", "==="]
BROKEN = [
    # declarations with a missing or wrong part
    "var", "var x", "var x =", "var = 1", "var x 1", "param", "param x", "param = 1", "param x =", "param x string =", "output x", "output x string", "output x = 1",
    "output x string =", "resource", "resource x", "resource x = {}", "resource x 'a@b'", "resource x 'a@b' {}", "resource 'a@b' = {}", "resource x 'a@b' = 1",
    "resource x 'a@b' existing existing = {}", "module m", "module m = {}", "module m './a.bicep'", "module './a' = {}", "module m './a' = 'x'", "type", "type x", "type x =",
    "func", "func f", "func f()", "func f() string", "func f() string =>", "func f(x) string => x", "func () string => 1", "import", "import from 'x'", "import {a} 'x'", "import {} from 'x'",
    "import a from", "import {a as} from 'x'", "extension", "extension with {}", "extension a with", "extension a as", "metadata", "metadata a", "metadata a =", "metadata = 'a'",
    "metadata a = 1", "targetScope", "targetScope =", "targetScope 'resourceGroup'", "targetScope = resourceGroup", "targetScope = 1",
    # unknown scopes
    "targetScope = 'foo'", "targetScope = ''", "targetScope = 'ResourceGroup'", "targetScope = 'resourceGroup '", "targetScope = 'subscriptions'", "targetScope = 'managementgroup'",
    "targetScope = 'resource'", "targetScope = 'tenants'", "targetScope = 'sub'",
    # resource types without exactly one @
    "resource x 'a' = {}", "resource x 'a/b' = {}", "resource x 'a@b@c' = {}", "resource x '' = {}", "resource x 'A.B/c:2020' existing = {}",
    # module references of no known form
    "module m 'br:' = {}", "module m 'br:foo' = {}", "module m 'br:foo.azurecr.io/x' = {}", "module m 'br:foo.example.com/x:1' = {}", "module m 'ts:' = {}", "module m 'ts:a/b/c' = {}",
    "module m 'ts:x/y/z:1' = {}", "module m 'br/:x:1' = {}", "module m 'br/a:x' = {}", "module m 'ts/a:x' = {}", "module m 'ts/:x:1' = {}",
    # stray or incomplete expressions
    "var x = [1,]", "var x = [,]", "var x = [,1]", "var x = [1,,2]", "var x = {,}", "var x = {a}", "var x = {a:}", "var x = {:1}", "var x = {a:1,}", "var x = {a=1}", "var x = {1:2}", "var x = 1 +", "var x = + 1",
    "var x = * 1", "var x = 1 1", "var x = a b", "var x = a ? b", "var x = a ? : b", "var x = a ?", "var x = !", "var x = -", "var x = (", "var x = ()", "var x = (1, 2)", "var x = a.", "var x = .a", "var x = a..b",
    "var x = a[", "var x = a[]", "var x = f(1", "var x = f(1,)", "var x = f(1 2)", "var x = 0x1F", "var x = 1_000", "var x = 'a", "var x = a'", "var x = 'a''b'", "var x = '''a", "var x = 'it's'",
    "var x = \"a\"", "var x = 'a\\'", "var x = a =", "var x = = a", "var x = a === b", "var x = a <> b", "var x = a & b", "var x = a | b", "var x = a::", "var x = ::a", "var x = 'a' 'b'", "var x == 1",
    "var x = [for]", "var x = [for a in b]", "var x = [for a in b:]", "var x = [for in b: a]", "var x = [for a b: c]", "var x = [for (a) in b: c]", "var x = [for (a, b, c) in d: e]", "var x = for a in b: c",
    "resource x 'a@b' = if {}", "resource x 'a@b' = if () {}", "resource x 'a@b' = if (a)", "resource x 'a@b' = (a) {}", "resource x 'a@b' = [for a in b: ]",
    "@", "@secure", "@secure()", "@secure() @", "@()\nvar x = 1", "@description('a'", "@sys.()\nvar x = 1", "@a b()\nvar x = 1", "@secure()\nimport a from 'x'", "@secure()\nmetadata a = 'x'",
    "foo", "foo x = 1", "Param x string", "VAR x = 1", "x = 1", "{}", "[]", "1", "'a'", "true", "null", "existing", "*/", "let x = 1", "param 1x string", "var 1 = 1", "var a-b = 1", "var a.b = 1",
    "var 'a' = 1", "param x 'string' = 1 2", "param x [] ", "param x string[", "param x string]", "param x (string)", "param x (string|)", "param x (|string)", "param x string|int",
]

# places where one piece can be repeated at will: {p} is the repeated piece, {j} what spoils it, {w} a word
PUMPS = [
    "module m 'br:acr.azurecr.io/{p}{j}' = {{}}", "module m 'br:acr.azurecr.io/a/{p}:{p}{j}' = {{}}", "module m 'br:{p}{j}.azurecr.io/a:1' = {{}}", "module m 'br:mcr.microsoft.com/{p}{j}:1' = {{}}",
    "module m 'br/{w}:{p}{j}' = {{}}", "module m 'br/{p}:a{j}:1' = {{}}", "module m 'ts:{p}/{p}/{p}{j}' = {{}}", "module m 'ts:1-1/rg/{p}:{p}{j}' = {{}}", "module m 'ts/{p}:{p}{j}' = {{}}",
    "module m 'ts/a:{p}{j}:1' = {{}}", "module m '{p}{j}' = {{}}", "module m 'br/{p}{j}' = {{}}", "resource r '{p}@{p}{j}' = {{}}", "resource r 'A.B/{p}{j}' = {{}}", "resource r 'A.B/c@1' = {{ resource k '{p}{j}' = {{}} }}",
    "import {{{w}}} from '{p}{j}'", "import '{p}{j}'", "targetScope = '{p}{j}'", "metadata m = '{p}{j}'", "metadata {w}{p}{j} = 'a'", "@{w}{p}{j}()\nvar x = 1", "@sys.{p}{j}(1)\nvar x = 1", "var {w}{p}{j} = 1",
    "param x {w}{p}{j}", "param x string{p}{j}", "param x (a|{p}{j})", "var x = {p}{j}", "var x = '{p}{j}'", "var x = '{p}{j}", "var x = '''{p}{j}'''", "var x = '''{p}{j}", "var x = a.{p}{j}", "var x = a[{p}{j}]",
    "var x = f({p}{j})", "var x = {w}{p}{j}(1)", "var x = [{p}{j}]", "var x = {{{w}: {p}{j}}}", "var x = {{{w}{p}{j}: 1}}", "var x = {{'{p}{j}': 1}}", "var x = a ? {p}{j} : b", "var x = a.list{w}{p}{j}(1)", "var x = [for a in {p}{j}: 1]",
    "func f({w} {p}{j}) string => 1", "type t = {p}{j}", "type t = 'a' | {p}{j}", "output o {p}{j} = 1", "{p}{j}", "var x = 1 // {p}{j}", "var x = 1 # {p}{j}", "/* {p}{j} */ var x = 1", "/* {p}{j}", "extension {w} as {p}{j}",
]
UNITS = ["a", "1", "-", ".", "/", "_", "a-", "a/", "a.", "1-", "a_", "aA1", "./", "../", " ", "\t", "\n", "\r\n", ":", "@", "${a}", "${", "}", "\\", "\\'", "$", "\"", "'", "''", "*", "/*", "*/", "//", "#", "(", ")", "[", "]", "{", "}",
         "[]", "()", "{}", "a,", "a, ", "!", "?", "a?", "?a:", "a ? b : ", "-", "!a", "a.b", "a[0]", "[0]", "a::", "a.b::", "f(", "f()", "a(b).", ".?a", "a??", "a+", "a && ", "a||b|", "x=>", "(a)", "((", "))", "sys.", "az.", "get", "list", ".list", ".listA(1)",
         "'a'", "'a',", "'a'.", "'a' | ", "a|", "null", "true", "for ", "if (", "items(", "resource ", "a: ", "a: 1, ", "\n\n", " \n", "\\n", "é", "\u200b", "\ud800", "% ", "if(a)"]

RUN_STARTS = ["var x = ", "", "param x ", "@a(", "resource x 'a@b' = ", "type t = ", "var x = '", "var x = '''", "/*", "import {", "func f("]
RUN_UNITS = [
    "(", "[", "{", "f(", "a ? ", "!", "-", "a.", "a[", "'${", "[for a in b: ", "if (", "a: {", "resource k 'd' = {", "a=>", "'", "''", "'''", "${", "\\", "/*", "//", "#", "\n", "a", "1", "_", "é", "'a' ",
    "a | ", "(a|", "a,", " ", "\t", "\x00", "@a", "a::", "??", "'a}", "{'", "${'a", "\r", "\ud800",
]


def in_comment(text, junk):
    """May the text at the end be part of a line comment?"""
    line = text[: len(text) - len(junk)].rpartition("\n")[2] if text.endswith(junk) else ""
    return "//" in line or "#" in line


class C20(Check):
    id = "C20"
    rule = (
        "Five families: arbitrary Unicode text; token soups; valid documents damaged by 1..8 character or token edits, truncations and splices; repeated pieces in every place where one can be repeated, spoilt at the end; "
        "documents made ill-formed by construction (one bracket added, removed or changed, unknown scope, malformed type or reference, missing "
        "part, stray character, unterminated string) between valid declarations, which must be rejected. Any outcome must be a clean result "
        "(plain data, same with line numbers) or ValueError/lark error. Non-trivial: every text of 3 or more characters."
    )
    assumptions = ["errors wrapped in lark's VisitError count as documented parsing errors", "a case exceeding 90 CPU seconds counts as a hang (typical: milliseconds)"]
    quick_cases = 30000
    thorough_cases = 1200000

    def setup(self):
        target.parser(False)
        target.parser(True)

    def fixed(self, tier):
        """Long runs of one piece that never come to an end."""
        n = 3000 if tier == "quick" else 30000
        runs = [(pre, unit) for i, pre in enumerate(RUN_STARTS) for j, unit in enumerate(RUN_UNITS) if tier != "quick" or (i + j) % 3 == 0]
        return [lambda pre=pre, unit=unit: {"family": "run", "text": pre + unit * n, "reject": False} for pre, unit in runs]

    def text(self, src, g, n=None):
        g.fuel = src.pick([6, 20, 50])
        decls = [g.decl() for _ in range(n if n is not None else src.weighted([(1, 5), (2, 3), (4, 1)]))]
        return render_doc(src, decls)[0]

    def gen(self, src, tier):
        g = G(src, tier=tier)
        k = src.weighted([("invalid", 10), ("damage", 8), ("soup", 4), ("chars", 2), ("pump", 3)])
        if k == "chars":
            n = src.pick([0, 1, 2, 5, 20, 80, 300])
            pools = ["'", "${}'", "'\\", "()[]{}", "\n\r\t ", "abc019_", "=:?!.,|&<>~+-*/%@#", "éß☃\U0001f600\ufeff\u2028\x00\x1b\x85\ud83d\udc80", "varparamfor"]
            mine = [src.pick(pools) for _ in range(src.int(1, 3))]
            return {"family": k, "text": "".join(src.pick(src.pick(mine)) for _ in range(n)), "reject": False}
        if k == "pump":
            unit = "".join(src.pick(UNITS) for _ in range(src.weighted([(1, 6), (2, 2), (3, 1)])))
            n = src.pick([2, 5, 20, 30, 60, 200, 600])
            t = src.pick(PUMPS).format(p=unit * n, j=src.pick(["", "", "!", " ", ":", "@", "\\", "é", "$", "'", "{", "%", "\n", "a", ")", "*"]), w=src.pick(["a", "x_1", "foo", "list"]))
            return {"family": k, "text": src.pick(["", "", "var a = 1\n"]) + t + src.pick(["\n", "", "\nvar z = 1\n"]), "reject": False}
        if k == "soup":
            sep = src.pick(["", " ", " ", "\n"])
            return {"family": k, "text": sep.join(src.pick(SOUP) for _ in range(src.pick([1, 2, 4, 8, 20, 60]))), "reject": False}
        if k == "damage":
            t = self.text(src, g)
            for _ in range(src.weighted([(1, 5), (2, 2), (4, 1), (8, 1)])):
                t = self.damage(src, g, t)
            return {"family": k, "text": t, "reject": False}
        return self.invalid(src, g)

    def damage(self, src, g, t):
        r = src.n(9)
        i = src.n(len(t) + 1)
        j = min(len(t), i + src.pick([1, 1, 2, 5, 20, 100]))
        if r == 0:
            return t[:i] + t[j:]
        if r == 1:
            return t[:i] + src.pick(SOUP + STRAY) + t[i:]
        if r == 2:
            return t[:i] + src.pick(STRAY) + t[i + 1 :]
        if r == 3:
            return t[:j] + t[i:j] + t[j:]
        if r == 4:
            return t[:i]
        if r == 5:
            return t[i:]
        if r == 6:
            k = src.n(len(t) + 1)
            return t[:k] + t[i:j] + t[k:]
        if r == 7:
            return t[:i] + src.pick("'\"`()[]{}$\\\n\r\t/*#@") * src.pick([1, 2, 3, 10]) + t[i:]
        other = self.text(src, g, 1)
        k = src.n(len(other) + 1)
        return t[:i] + other[k:]

    def invalid(self, src, g):
        kind = src.weighted([("part", 6), ("bracket", 6), ("stray", 3), ("quote", 2), ("scope", 1), ("type", 1), ("edge", 2), ("triple", 2)])
        if kind == "triple":
            # a multi-line string that is never closed, behind any number of those that are
            g.fuel = src.pick([6, 20, 50])
            decls = [g.decl() for _ in range(src.int(0, 2))]
            body = g.mraw() if src.n(2) else src.pick(["abc'", "a'", " '", "x' 'y'", "", "'", "${a}'", "a' == 'b'"])
            wrap = src.pick(["{}", "{}", "f({})", "[{}]", "[\n  {}\n]", "{{\n  a: {}\n}}", "{} == a", "a ? {} : b", "'x${{a}}' == {}", "'' == {}", "a['k'] == {}"])
            head = src.pick(["var zz = ", "output zz string = ", "param zz string = ", "@description({})\nvar zz = 1"])
            opened = wrap.format(chr(1)) if "{}" not in head else chr(1)
            text = (head.format(opened) if "{}" in head else head + opened).replace(chr(1), "'''" + body)
            pre = render(doc_tokens(decls), Canonical() if src.n(2) else Random(src), "", "\n")[0] if decls else ""
            pre += src.pick(["", "", "// '''\n", "/* ''' */\n", "# '''\n", "// it's\n", "var yy = '''a'''\n"])
            post = src.pick(["", "\n", "\nvar a = 1\n", "\nvar a = 'x'\n", "\n// c\n", "''", "\n'", "\nvar a = ''\n", "\nparam p string = '${a}'\n", "\nvar a = ['a', '']\n"])
            if body.endswith("'") and post.startswith("'"):
                post = "\n" + post  # or that would close it
            return {"family": f"invalid:{kind}", "text": pre + text + post, "reject": True}
        if kind == "edge":
            # a character outside the language before or after everything
            t = self.text(src, g) if src.n(4) else ""
            junk = src.pick(JUNK) * src.pick([1, 1, 1, 2, 5])
            gaps = ["\n", "\n\n"]
            if junk[0] != "'":  # a quote right after a string could belong to it
                gaps.append("")
            t = t + src.pick(gaps) + junk if src.n(3) else junk + t
            if in_comment(t, junk):
                t += "\n" + junk
            return {"family": f"invalid:{kind}", "text": t + src.pick(["", "", "\n"]), "reject": True}
        if kind == "part":
            bad = src.pick(BROKEN)
            # a following declaration must not complete the broken one, so it goes first or stands apart
            pre = self.text(src, g, src.int(1, 2)) + "\n" if src.n(2) else ""
            return {"family": f"invalid:{kind}", "text": pre + bad + src.pick(["", "\n"]), "reject": True}
        if kind in ("scope", "type"):
            w = g.word("-. ")
            if kind == "scope":
                if w in ("resourceGroup", "subscription", "managementGroup", "tenant"):
                    w += "s"
                bad = f"targetScope = '{w}'"
            else:
                n = src.pick([0, 0, 2, 3])
                t = "@".join(g.word("-./") for _ in range(n + 1))
                bad = f"resource x '{t}' {src.pick(['', 'existing '])}= {{}}"
            parts = [bad]
            if src.n(2):
                parts.insert(0, self.text(src, g, 1))
            if src.n(2):
                parts.append(self.text(src, g, 1))
            return {"family": f"invalid:{kind}", "text": "\n".join(parts), "reject": True}
        g.fuel = src.pick([6, 20, 50])
        decls = [g.decl() for _ in range(src.int(1, 3))]
        toks = doc_tokens(decls)
        layout = Canonical() if src.n(2) else Random(src)
        places = [i for i, t in enumerate(toks) if isinstance(t, str) and t in tuple(BRACKETS)]
        between = [i for i, t in enumerate(toks) if not isinstance(t, Mark)]
        toks = list(toks)
        if not between:
            return {"family": "empty", "text": "", "reject": False}
        if kind == "bracket":
            r = src.n(3)
            if r == 0 and places:
                del toks[src.pick(places)]
            elif r == 1 and places:
                i = src.pick(places)
                toks[i] = src.pick([b for b in BRACKETS if b != toks[i]])
            else:
                toks.insert(src.pick(between), src.pick(BRACKETS))
        elif kind == "stray":
            at, char = src.pick(between), src.pick(["$", ";", "`", "^", "\"", "\\", "§", "&", "~", "€", "☃", "\x00", "$$", "^^", "\x7f"])
            # after the mark in a![0] a tilde makes an operator
            before = [t for t in toks[:at] if isinstance(t, str)]
            toks.insert(at, ";" if char == "~" and before and before[-1].endswith("!") else char)
        else:
            # an opening quote that is never closed on a text without further quotes
            return {"family": "invalid:quote", "text": render(toks, layout, "", "\n")[0] + src.pick(["var zz = 'abc", "var zz = '${a", "var zz = '${'a}'", "param zz string = 'a\\'", "metadata zz = '''x", "var zz = ['a'\n'b]"]), "reject": True}
        return {"family": f"invalid:{kind}", "text": render(toks, layout, "", "\n")[0], "reject": True}

    def run(self, case, ctx):
        text = case["text"]
        el = target.load()["BicepElement"]
        results = []
        for lines in (False, True):
            out = target.parse(text, lines)
            if out.ok:
                bad, _ = scan(out.value, el)
                if bad:
                    raise Violation(f"{bad}\n--- text\n{shown(text)}")
                if case["reject"]:
                    raise Violation(f"ill-formed text ({case['family']}) accepted\n--- text\n{shown(text)}\n--- result\n{str(out.value)[:1000]}")
            elif not target.documented_error(out.exc):
                raise Violation(f"undocumented {out.describe()}\n--- text\n{shown(text)}")
            results.append(out)
        if results[0].ok != results[1].ok:
            raise Violation(f"{results[0].describe()} without, {results[1].describe()} with line numbers\n--- text\n{shown(text)}")
        tree = target.tree(text)
        if results[0].ok and not tree.ok:
            raise Violation(f"parse accepts what create_tree refuses: {tree.describe()}\n--- text\n{shown(text)}")
        if not tree.ok and not target.documented_error(tree.exc):
            raise Violation(f"create_tree: undocumented {tree.describe()}\n--- text\n{shown(text)}")
        ctx.label(case["family"] + (" accepted" if results[0].ok else " rejected"))
        return len(text) > 2


CHECK = C20()
