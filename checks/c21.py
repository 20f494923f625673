"""C21: create_tree agrees with parse and with the document."""

import os
from pathlib import Path

from vlib import target
from vlib.ast import Bang, Deco, Id, Int, Lam, Loop, MStr, Par, Str, doc_tokens
from vlib import big
from vlib.common import DocCheck, edges, render_doc, shown, walk
from vlib.engine import Violation
from vlib.syntax import Canonical, Mark, Random, render


class C21(DocCheck):
    id = "C21"
    rule = (
        "1..5 declarations in two layouts, plus a second document and a damaged variant: create_tree must accept what parse accepts, be equal "
        "across layouts, options and file input, be the text lark itself renders for the grammar's parse tree, be additive under joining, and contain every identifier and literal of the document in order; "
        "damaged text must be refused with a lark error whenever parse refuses its syntax. Non-trivial: at least five literals or names."
    )
    assumptions = ["whether a blank precedes the parenthesis of a loop filter's if is kept the same in both layouts (the two spellings have different, equivalent trees)"]
    big = staticmethod(big.everything)
    quick_cases = 8000
    thorough_cases = 250000

    def setup(self):
        super().setup()
        # lark's own rendering of the tree its grammar gives
        try:
            self.reference = target.load()["lark"].Lark((target.REPO / "pycep" / "bicep.lark").read_text(encoding="utf-8"), parser="lalr", regex=True)
        except Exception:
            self.reference = None

    def decls(self, src, g):
        g.fuel = src.pick([6, 20, 50])
        return g.several([(1, 5), (2, 3), (4, 1)])

    def gen(self, src, tier):
        g = self.grammar(src, tier)
        decls = self.decls(src, g)
        toks = fix_if(doc_tokens(decls))
        a, _ = render(toks, Canonical(), "", "\n")
        layout = Random(src, crlf=src.n(4) == 3)
        begin, end = edges(src, layout, "random")
        b, _ = render(toks, layout, begin, end)
        g.fuel = 10
        c, _, _ = render_doc(src, [g.decl()])
        i = src.n(len(a) + 1)
        broken = a[:i] + src.pick(["", "$", "(", ")", "]", "}", "=", "'"]) + a[i + src.n(3) :]
        leaves = [t for t in toks if isinstance(t, str) and (t[:1] == "'" or t[:1].isalnum() or t[:1] == "_")]
        return {"a": a, "b": b, "c": c, "broken": broken, "leaves": [t.removesuffix("(") for t in leaves if t not in KEYWORDS]}

    def tree(self, text, what, lines=False):
        out = target.call(target.parser(lines).create_tree, text=text)
        if not out.ok:
            raise Violation(f"create_tree refuses {what}: {out.describe()}\n--- document\n{shown(text)}")
        if type(out.value) is not str:
            raise Violation(f"create_tree returned a {type(out.value).__name__}")
        return out.value

    def run(self, case, ctx):
        a, b, c = case["a"], case["b"], case["c"]
        ta = self.tree(a, "a valid document")
        tb = self.tree(b, "a valid document")
        if ta != tb:
            raise Violation(f"layout changes the tree\n--- a\n{a}\n--- b\n{b}\n--- tree a\n{ta}\n--- tree b\n{tb}")
        if self.reference:
            want = self.reference.parse(a).pretty()
            if ta != want:
                raise Violation(f"the text is not the usual rendering of the parse tree\n--- document\n{shown(a)}\n--- tree\n{shown(ta)}\n--- expected\n{shown(want)}")
        if self.tree(a, "a valid document", lines=True) != ta:
            raise Violation(f"the line number option changes the tree\n--- document\n{a}")
        tc = self.tree(c, "a valid document")
        tac = self.tree(a + c, "joined documents")
        if not (ta.startswith("start") and tc.startswith("start")):
            raise Violation(f"the tree does not begin with its root\n--- tree\n{ta}")
        if body(tac) != body(ta) + body(tc):
            raise Violation(f"the tree of joined documents is not the joined trees\n--- a\n{a}\n--- b\n{c}\n--- tree\n{tac}")
        pos = 0
        for leaf in case["leaves"]:
            p = ta.find(leaf, pos)
            if p < 0:
                raise Violation(f"{leaf!r} is missing from the tree (or out of order)\n--- document\n{a}\n--- tree\n{ta}")
            pos = p + len(leaf)
        path = Path(os.environ["VERIF_SCRATCH"]) / f"tree-{os.getpid()}.bicep"
        path.write_bytes(a.encode())
        out = target.call(target.parser(False).create_tree, file_path=path)
        if not out.ok:
            raise Violation(f"create_tree refuses a file: {out.describe()}\n--- document\n{a}")
        # reading a file normalises CRLF
        if out.value != (ta if "\r" not in a else self.tree(a.replace("\r\n", "\n"), "a valid document")):
            raise Violation(f"file and text input have different trees\n--- document\n{a}")
        p = target.parse(case["broken"])
        t = target.tree(case["broken"])
        from lark.exceptions import UnexpectedInput

        if p.ok and not t.ok:
            raise Violation(f"parse accepts what create_tree refuses: {t.describe()}\n--- text\n{case['broken']}")
        if not p.ok and isinstance(p.exc, UnexpectedInput) and (t.ok or type(t.exc) is not type(p.exc)):
            raise Violation(f"parse: {p.describe()}; create_tree: {t.describe()}\n--- text\n{case['broken']}")
        ctx.label("damaged text accepted" if p.ok else "damaged text refused")
        return len(case["leaves"]) >= 5


KEYWORDS = {
    "targetScope", "import", "metadata", "param", "var", "output", "resource", "module", "type", "func", "extension", "existing", "for", "in", "if", "as", "with",
    "from", "items", "null", "true", "false",
}


def fix_if(toks):
    """Glues `if` to what follows, so that layouts agree on it."""
    from vlib.syntax import S, W

    toks = list(toks)
    for i, t in enumerate(toks):
        if t == "if" and i + 1 < len(toks) and toks[i + 1] is W:
            toks[i + 1] = S
    return toks


def body(tree):
    return tree.split("\n", 1)[1] if "\n" in tree else ""


CHECK = C21()
