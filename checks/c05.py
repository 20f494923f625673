"""C05: parsing is compositional."""

from vlib import target
from vlib.ast import Scope
from vlib.common import edges, layout_for, render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G, uniquify
from vlib.syntax import render
from vlib.ast import doc_tokens
from vlib.values import same


def shifted(entries, n):
    """Copy of one section's entries with line numbers moved by n lines (0 marks an implicit scope)."""
    out = {}
    for name, attrs in entries.items():
        attrs = dict(attrs)
        for k in ("__start_line__", "__end_line__"):
            if attrs.get(k):
                attrs[k] += n
        out[name] = attrs
    return out


class C05(Check):
    id = "C05"
    rule = (
        "Joining: two documents of 1..8 declarations with distinct names, each in its own layout, are parsed alone and joined; the joined "
        "result must be the union with the second part's lines moved. Permuting: a document is parsed with its declarations in two orders. "
        "The oracle only relates real results. Non-trivial: all generated names distinct, at least two declarations in total."
    )
    assumptions = ["names that collide after joining (e.g. hoisted children) are skipped: the last would win by design"]
    quick_cases = 10000
    thorough_cases = 300000

    def setup(self):
        target.parser(False)
        target.parser(True)

    def gen(self, src, tier):
        g = G(src, fuel=src.pick([10, 30, 80]), tier=tier)
        used = set()

        def some(n):
            out = []
            for _ in range(n):
                d = g.decl()
                uniquify(d, used)
                out.append(d)
            return out

        if src.n(3) < 2:
            a = some(src.weighted([(1, 4), (2, 3), (g.size(1, 8), 2)]))
            b = some(src.weighted([(1, 4), (2, 3), (g.size(1, 8), 2)]))
            ta, _, la = render_doc(src, a)
            if not ta.endswith("\n"):
                ta += "\n"
            tb, _, _ = render_doc(src, b)
            return {"mode": "join", "a": ta, "b": tb, "scope_in_b": any(isinstance(d, Scope) for d in b)}
        decls = some(src.int(2, 6))
        seen_scope = False
        kept = []
        for d in decls:
            if isinstance(d, Scope):
                if seen_scope:
                    continue
                seen_scope = True
            kept.append(d)
        order = src.shuffle(range(len(kept)))
        layout, style = layout_for(src)
        begin, end = edges(src, layout, style)
        ta, _ = render(doc_tokens(kept), layout, begin, end)
        layout, style = layout_for(src)
        begin, end = edges(src, layout, style)
        tb, _ = render(doc_tokens([kept[i] for i in order]), layout, begin, end)
        return {"mode": "permute", "a": ta, "b": tb}

    def parse(self, text, lines, what):
        out = target.parse(text, lines)
        if not out.ok:
            raise Violation(f"{what} rejected with {out.describe()}\n--- document\n{shown(text)}")
        return out.value

    def run(self, case, ctx):
        a, b = case["a"], case["b"]
        ctx.label(case["mode"])
        if case["mode"] == "permute":
            ra, rb = self.parse(a, False, "document"), self.parse(b, False, "permuted document")
            if set(ra) != set(rb):
                raise Violation(f"sections {sorted(ra)} vs {sorted(rb)} after permuting\n--- a\n{a}\n--- b\n{b}")
            for sec in ra:
                if set(ra[sec]) != set(rb[sec]):
                    raise Violation(f"{sec}: names {list(ra[sec])} vs {list(rb[sec])} after permuting\n--- a\n{a}\n--- b\n{b}")
                for name in ra[sec]:
                    d = same(ra[sec][name], rb[sec][name], f"{sec}.{name}")
                    if d:
                        raise Violation(f"permuting declarations changed {d}\n--- a\n{a}\n--- b\n{b}")
            return True
        trivial = False
        for lines in (False, True):
            ra, rb = self.parse(a, lines, "first document"), self.parse(b, lines, "second document")
            rab = self.parse(a + b, lines, "joined document")
            n = a.count("\n") if lines else 0
            want = {}
            for sec in list(ra) + [s for s in rb if s not in ra]:
                ea, eb = ra.get(sec, {}), shifted(rb.get(sec, {}), n)
                if sec == "globals":
                    want[sec] = eb if case["scope_in_b"] else ea
                    continue
                if set(ea) & set(eb):
                    trivial = True
                want[sec] = {**ea, **eb}
            if trivial:
                ctx.label("colliding names")
                return False
            if set(rab) != set(want):
                raise Violation(f"sections {sorted(rab)} instead of {sorted(want)}\n--- a\n{a}\n--- b\n{b}")
            for sec in want:
                if set(rab[sec]) != set(want[sec]):
                    raise Violation(f"{sec}: names {list(rab[sec])} instead of {list(want[sec])}\n--- a\n{a}\n--- b\n{b}")
                for name in want[sec]:
                    d = same(rab[sec][name], want[sec][name], f"{sec}.{name}")
                    if d:
                        raise Violation(f"joining documents changed {d} (line numbers {'on' if lines else 'off'})\n--- a\n{a}\n--- b\n{b}")
                for part in (ra, rb):
                    if sec in part and [k for k in rab[sec] if k in part[sec]] != list(part[sec]):
                        raise Violation(f"joining documents reordered {sec}\n--- a\n{a}\n--- b\n{b}")
        return True


CHECK = C05()
