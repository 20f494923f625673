"""C03: file input, text input and create_tree follow one argument contract."""

import os
from pathlib import Path

from vlib import target
from vlib.ast import doc_model, doc_tokens
from vlib.common import render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G
from vlib.syntax import Canonical, render
from vlib.values import dec, diff, enc, same

from .c20 import BROKEN

NAMES = ["main.bicep", "a b.bicep", "é☃.bicep", "no-suffix", "x.txt", ".hidden", "%s.bicep", "{x}.bicep", "a'b.bicep", "UPPER.BICEP", "x" * 120 + ".bicep", "a.b.c.bicep", "-dash.bicep", "br:x.bicep", "~a.bicep", "~root", "$HOME.bicep", "%20.bicep", "a\\b.bicep", "*.bicep", "a\nb.bicep", " x "]


class C03(Check):
    id = "C03"
    rule = (
        "A document (valid with much non-ASCII content, ill-formed, empty, unbalanced quotes, large, odd characters at the edges, or bytes that are no UTF-8) is written to a file "
        "under a generated name (blanks, Unicode, deep and relative paths, symbolic links) and given as file and as text to parse and create_tree, with and "
        "without line numbers; plus missing files, directories and all wrong argument combinations. Oracle: reference model, equality with the text "
        "result, exception type, unchanged file bytes. Non-trivial: the document is not empty."
    )
    assumptions = ["file_path is a pathlib.Path", "reading a file turns CRLF and CR into LF (Python's text mode)", "the checks run as root: permission errors cannot be provoked"]
    quick_cases = 6000
    thorough_cases = 200000

    def setup(self):
        target.parser(False)
        target.parser(True)
        self.dir = Path(os.environ["VERIF_SCRATCH"]) / f"c03-{os.getpid()}"
        self.dir.mkdir(exist_ok=True)

    def gen(self, src, tier):
        g = G(src, tier=tier)
        g.fuel = src.pick([4, 15, 40])
        kind = src.weighted([("valid", 10), ("broken", 3), ("empty", 1), ("quotes", 2), ("bytes", 1), ("wide", 2), ("odd", 2), ("large", 1)])
        case = {"kind": kind, "name": src.pick(NAMES), "dirs": src.pick(["", "", "d", "d e/f", "ü/x", "~", "$HOME/~"]), "spelling": src.pick(["absolute", "absolute", "relative", "from above", "dotdot", "link"])}
        if kind == "valid":
            decls = g.several([(1, 4), (3, 3), (6, 1)])
            text, spans, _ = render_doc(src, decls)
            case.update(text=text, expected=enc(doc_model(decls)), lines=enc(doc_model(decls, spans)))
        elif kind == "wide":
            from vlib.ast import Meta, Str, Var

            u = "".join(src.pick("éßøλжאあ漢\U0001f600\u00a0\u2028\u0301𝔘\x85\u200b") for _ in range(src.int(1, 30)))
            decls = [Var([], "x", Str(u)), Meta("m", u), Var([], "y", Str(src.pick(["ascii", "\x7f", "€"])))]
            text, spans = render(doc_tokens(decls), Canonical(), src.pick(["", f"// {u[:5].replace(chr(0x85), '')}\n"]), "\n")
            case.update(text=text, expected=enc(doc_model(decls)), lines=enc(doc_model(decls, spans)))
        elif kind == "large":
            from vlib.ast import MStr, Str, Var

            # beyond common buffer sizes, multi-byte characters at every offset
            size = src.pick([8192, 16384, 65536, 131072, 262144, 10000]) + src.int(-4, 4)
            ch = src.pick("é漢\U0001f600a")
            body = ch * max(1, (size - src.n(12)) // len(ch.encode())) + src.pick(["", "z", "é"])
            decls = [Var([], src.pick(["a", "ab", "abc", "abcd"]), (Str if src.n(2) else MStr)(body)), Var([], "tail", Str("tail"))]
            text, spans = render(doc_tokens(decls), Canonical(), src.pick(["", "\n", " ", "// é\n"]), "\n")
            case.update(text=text, expected=enc(doc_model(decls)), lines=enc(doc_model(decls, spans)))
        elif kind == "odd":
            # characters a reader may want to drop at the edges of a file
            t = render_doc(src, [g.decl()])[0] if src.n(3) else src.pick(["", "\n"])
            odd = src.pick(["\ufeff", "\ufeff\ufeff", "\x1a", "\0", "\u200b", "\u2028", "\x0c", "\x0b", "\x1c", "\x85", "\xa0", "\r", "\n\ufeff", "\ufffe", "#!/bin/x\n", "\u2060"])
            case["text"] = odd + t if src.n(2) else t + odd
        elif kind == "broken":
            case["text"] = src.pick(BROKEN)
        elif kind == "empty":
            case["text"] = src.pick(["", "\n", " ", "// x", "\n\n", "\t"])
        elif kind == "quotes":
            case["text"] = src.pick(["var x = '''", "'''", "// é\nvar x = '''abc\n", "var a = '''b'''\nvar c = '''\n"])
        else:
            case["text"] = ""
            case["bytes"] = src.pick(["76ff", "766172c3", "ff", "c3a9ff80", "efbbbf76ff", "80"])
        return case

    def both(self, lines, fn, **kw):
        return target.call(getattr(target.parser(lines), fn), **kw)

    def run(self, case, ctx):
        text = case["text"]
        data = bytes.fromhex(case["bytes"]) if "bytes" in case else text.encode()
        folder = self.dir / case["dirs"]
        folder.mkdir(parents=True, exist_ok=True)
        path = folder / case["name"]
        path.write_bytes(data)
        stamp = path.stat().st_mtime_ns
        given = path
        cwd = os.getcwd()
        link = folder / "link.bicep"
        try:
            if case["spelling"] == "relative":
                os.chdir(folder)
                given = Path(case["name"])
            elif case["spelling"] == "from above":
                os.chdir(self.dir)
                given = Path(case["dirs"]) / case["name"]
            elif case["spelling"] == "dotdot":
                (folder / "sub").mkdir(exist_ok=True)
                given = folder / "sub" / ".." / case["name"]
            elif case["spelling"] == "link":
                link.unlink(missing_ok=True)
                link.symlink_to(path)
                given = link
            self.compare(case, text, given)
            self.misuse(case, text, given, folder)
        finally:
            os.chdir(cwd)
            link.unlink(missing_ok=True)
        if path.read_bytes() != data or path.stat().st_mtime_ns != stamp:
            raise Violation(f"parsing changed the file {given}")
        path.unlink()
        ctx.label(f"kind:{case['kind']}", f"path:{case['spelling']}")
        if not text.isascii():
            ctx.label("non-ASCII")
        return bool(text.strip())

    def compare(self, case, text, given):
        el = target.load()["BicepElement"]
        # what text mode reading yields
        as_text = text.replace("\r\n", "\n").replace("\r", "\n")
        for lines in (False, True):
            for fn in ("parse", "create_tree"):
                what = f"{fn}(file_path={str(given)!r}), line numbers {'on' if lines else 'off'}"
                f = self.both(lines, fn, file_path=given)
                if "bytes" in case:
                    if f.ok or not isinstance(f.exc, UnicodeDecodeError):
                        raise Violation(f"{what}: bytes that are no UTF-8 give {f.describe()}")
                    continue
                t = self.both(lines, fn, text=as_text)
                if f.ok != t.ok:
                    raise Violation(f"{what}: {f.describe()}, as text: {t.describe()}\n--- document\n{shown(text)}")
                if f.ok:
                    d = same(f.value, t.value)
                    if d:
                        raise Violation(f"{what} differs from text input: {d}\n--- document\n{shown(text)}")
                else:
                    if type(f.exc) is not type(t.exc):
                        raise Violation(f"{what}: {f.describe()}, as text: {t.describe()}\n--- document\n{shown(text)}")
                    if type(f.exc) is ValueError and str(given) not in str(f.exc):
                        raise Violation(f"{what}: the error does not name the file: {f.describe()}\n--- document\n{shown(text)}")
                if case["kind"] in ("valid", "wide", "large"):
                    if not f.ok:
                        raise Violation(f"{what}: valid document rejected with {f.describe()}\n--- document\n{shown(text)}")
                    if fn == "parse" and "\r" not in text:
                        d = diff(f.value, dec(case["lines" if lines else "expected"]), el)
                        if d:
                            raise Violation(f"{what}: {d}\n--- document\n{shown(text)}")
                elif case["kind"] == "empty":
                    if not f.ok:
                        raise Violation(f"{what}: empty document rejected with {f.describe()}")
                elif f.ok and fn == "parse" and case["kind"] != "odd":
                    raise Violation(f"{what}: ill-formed document accepted\n--- document\n{shown(text)}")
                if case["kind"] == "quotes" and not f.ok and type(f.exc) is not ValueError:
                    raise Violation(f"{what}: unbalanced multi-line string gives {f.describe()}")

    def misuse(self, case, text, given, folder):
        p = target.parser(False)
        for fn in (p.parse, p.create_tree):
            for what, call, kind in (
                ("no argument", lambda: fn(), TypeError),
                ("text=None", lambda: fn(text=None), TypeError),
                ("both None", lambda: fn(text=None, file_path=None), TypeError),
                ("text and file", lambda: fn(text=text, file_path=given), TypeError),
                ("text and missing file", lambda: fn(text=text, file_path=folder / "missing"), TypeError),
                ("text and the current folder", lambda: fn(text=text, file_path=Path()), TypeError),
                ("text and a device", lambda: fn(text="var a = 1", file_path=Path("/dev/null")), TypeError),
                ("empty text and file", lambda: fn(text="", file_path=given), TypeError),
                ("positional text", lambda: fn(text), TypeError),
                ("positional path", lambda: fn(given), TypeError),
                ("missing file", lambda: fn(file_path=folder / "missing.bicep"), FileNotFoundError),
                ("missing folder", lambda: fn(file_path=folder / "missing" / "x.bicep"), FileNotFoundError),
                ("a directory", lambda: fn(file_path=folder), IsADirectoryError),
                ("below a file", lambda: fn(file_path=given / "x.bicep"), NotADirectoryError),
            ):
                out = target.call(call)
                if out.ok or not isinstance(out.exc, kind):
                    raise Violation(f"{fn.__name__} with {what}: {out.describe()} instead of {kind.__name__}")


CHECK = C03()
