"""C15: resource types and module references are split losslessly."""

from vlib.ast import Module, Object, Resource
from vlib import big
from vlib.common import DocCheck


class C15(DocCheck):
    id = "C15"
    rule = (
        "Resources with type strings and module references of all six forms whose parts are assembled from every character valid in them "
        "(words of 1..30 characters, several path segments, dots, dashes, underscores, parentheses), plus local paths that nearly look like "
        "registry references; compared part by part. Non-trivial: every document with a resource or module."
    )
    assumptions = [
        "registry references name *.azurecr.io or mcr.microsoft.com with a tag (the forms listed in docs/capabilities.md); digests are not generated",
    ]
    big = staticmethod(big.references)
    quick_cases = 24000
    thorough_cases = 800000

    def decls(self, src, g):
        g.fuel = 4
        g.max_depth = 1
        out = []
        for _ in range(src.weighted([(1, 5), (2, 3), (4, 1)])):
            body = Object([]) if src.n(2) else g.deploy_body(0)
            if src.n(3) == 0:
                out.append(Resource([], g.name(), g.res_type(), g.version(), src.n(2) == 1, body))
            else:
                out.append(Module([], g.name(), g.module_ref(), body))
        return out

    def labels(self, decls):
        out = set()
        for d in decls:
            if isinstance(d, Module):
                t = d.ref[1]
                out.add(t + (" public" if d.ref[2].get("public") else ""))
                if t == "local" and d.ref[0][:2].lower() in ("br", "ts"):
                    out.add("near-miss local path")
                if t != "local" and "." in d.ref[2].get("path", ""):
                    out.add("dotted path")
            elif hasattr(d, "existing"):
                out.add("existing resource" if d.existing else "resource")
        return out


CHECK = C15()
