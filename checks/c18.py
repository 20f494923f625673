"""C18: layout and comments never change the result."""

from vlib import big, target
from vlib.ast import doc_model, doc_tokens
from vlib.common import DocCheck, edges, shown
from vlib.engine import Violation
from vlib.syntax import Canonical, Random, render
from vlib.values import dec, diff, enc, same


class C18(DocCheck):
    id = "C18"
    rule = (
        "The same 1..6 declarations rendered conventionally and in two independent random layouts (LF and CRLF; spaces, tabs, blank lines, comma or "
        "line-break separators; //, /* */ and # comments of hostile content wherever breaks are admitted; leading and trailing text); all three "
        "results must be identical and equal the reference model. Non-trivial: the layouts contain a comment, CRLF or differing separators."
    )
    assumptions = ["line breaks and comment lines are only put where the grammar of this parser admits them (vlib/syntax.py, vlib/ast.py)"]
    quick_cases = 12000
    thorough_cases = 400000

    TRIPLE = ["// '''", "/* ''' */", "// it'''s", "/*\n'''\n*/", "# '''"]

    def gen(self, src, tier):
        g = self.grammar(src, tier)
        g.fuel = src.pick([6, 20, 60])
        decls = g.several([(1, 5), (2, 3), (3, 2), (6, 1)])
        toks = doc_tokens(decls)
        texts, labels = [], set()
        canonical, _ = render(toks, Canonical(), "", "\n")
        for _ in range(2):
            crlf = src.n(4) == 3
            layout = Random(src, crlf=crlf)
            begin, end = edges(src, layout, "random")
            if src.n(20) == 19:
                end = layout.eol() + src.pick(self.TRIPLE) + layout.eol()
                labels.add("odd triple quotes in comments")
            text, _ = render(toks, layout, begin, end)
            texts.append(text)
            labels |= layout.stats
            if crlf:
                labels.add("CRLF")
            if begin.strip() or end.strip():
                labels.add("leading/trailing comment")
            if not end:
                labels.add("no final newline")
        return {"canonical": canonical, "texts": texts, "expected": enc(doc_model(decls)), "labels": sorted(labels)}

    def fixed(self, tier):
        return [*super().fixed(tier), *(lambda x=x: self.far_case(*x) for x in big.layouts())]

    def far_case(self, name, layout, begin, end):
        decls = big.sampler()
        toks = doc_tokens(decls)
        canonical, _ = render(toks, Canonical(), "", "\n")
        text, _ = render(toks, layout, begin, end)
        return {"canonical": canonical, "texts": [text], "expected": enc(doc_model(decls)), "labels": [name]}

    def run(self, case, ctx):
        el = target.load()["BicepElement"]
        first = None
        for text in [case["canonical"], *case["texts"]]:
            out = target.parse(text)
            if not out.ok:
                raise Violation(f"valid document rejected with {out.describe()}\n--- document\n{shown(text)}\n--- conventional layout\n{shown(case['canonical'])}")
            if first is None:
                first = out.value
                d = diff(first, dec(case["expected"]), el)
                if d:
                    raise Violation(f"{d}\n--- document\n{shown(text)}")
            else:
                d = same(first, out.value)
                if d:
                    raise Violation(f"layout changed {d}\n--- document\n{shown(text)}\n--- conventional layout\n{shown(case['canonical'])}")
        ctx.label(*case["labels"])
        return bool(case["labels"])


CHECK = C18()
