"""C19: results are self-contained plain data."""

import json
import pickle

from vlib import target
from vlib import big
from vlib.common import DocCheck, render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G


def scan(value, element):
    """(first impurity or None, ids of all mutable parts)."""
    ids = {}
    stack = [(value, "$")]
    while stack:
        v, p = stack.pop()
        t = type(v)
        if t is dict:
            if id(v) in ids:
                return f"{p} is the same dict as {ids[id(v)]}", ids
            ids[id(v)] = p
            for k, x in v.items():
                if type(k) is not str:
                    return f"{p}: key {k!r} is a {type(k).__module__}.{type(k).__name__}", ids
                stack.append((x, f"{p}.{k}"))
        elif t is list:
            if id(v) in ids:
                return f"{p} is the same list as {ids[id(v)]}", ids
            ids[id(v)] = p
            stack.extend((x, f"{p}[{i}]") for i, x in enumerate(v))
        elif t is element:
            if vars(v) if hasattr(v, "__dict__") else None:
                return f"{p}: the reference carries extra state {vars(v)}", ids
        elif t not in (str, int, bool, type(None)):
            return f"{p} is a {t.__module__}.{t.__name__}: {str(v)[:80]!r}", ids
    return None, ids


class C19(DocCheck):
    id = "C19"
    rule = (
        "Documents of 1..8 declarations of all kinds; with and without line numbers every part of the result must be an exact dict, list, str, "
        "BicepElement, int, bool or None, must survive JSON and pickle, and no dict or list may occur twice within the result or in the results "
        "of a second parse of the same document and of another one. Non-trivial: the result has at least 8 containers."
    )
    assumptions = []
    big = staticmethod(big.everything)
    quick_cases = 12000
    thorough_cases = 400000

    def gen(self, src, tier):
        g = G(src, tier=tier)
        out = []
        for _ in range(2):
            g.fuel = src.pick([6, 20, 60])
            text, _, _ = render_doc(src, g.several([(1, 4), (2, 3), (4, 2), (8, 1)]))
            out.append(text)
        return {"text": out[0], "other": out[1]}

    def run(self, case, ctx):
        el = target.load()["BicepElement"]
        big = False
        for lines in (False, True):
            results = []
            for text in (case["text"], case["other"], case["text"]):
                out = target.parse(text, lines)
                if not out.ok:
                    raise Violation(f"valid document rejected with {out.describe()}\n--- document\n{shown(text)}")
                results.append((text, out.value))
            seen = {}
            for i, (text, r) in enumerate(results):
                bad, ids = scan(r, el)
                if bad:
                    raise Violation(f"{bad}\n--- document\n{shown(text)}")
                for k, p in ids.items():
                    if k in seen:
                        raise Violation(f"{p} of result {i} is also part of result {seen[k]}\n--- document\n{shown(text)}")
                    seen[k] = i
                big = big or len(ids) >= 8
                if i < 2:
                    try:
                        if json.loads(json.dumps(r)) != r:
                            raise Violation(f"the result changes in a JSON round trip\n--- document\n{shown(text)}")
                        if pickle.loads(pickle.dumps(r)) != r:
                            raise Violation(f"the result changes when pickled\n--- document\n{shown(text)}")
                    except (TypeError, ValueError, AttributeError, pickle.PicklingError) as e:
                        raise Violation(f"the result cannot be serialised: {e!r}\n--- document\n{shown(text)}") from e
        if big:
            ctx.label("8+ containers")
        return big


CHECK = C19()
