"""C22: results do not depend on the process environment."""

import json
import os
import subprocess
import sys
from pathlib import Path

from vlib import target
from vlib.ast import Meta, Str, Var, doc_model
from vlib.common import render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G
from vlib.values import El, dec, diff, enc

from .c20 import BROKEN

CHILD = r'''
import json, os, pathlib, sys
job = json.load(open(sys.argv[1], encoding="utf-8"))
if job["umask"] is not None:
    os.umask(job["umask"])
import logging
logging.disable(logging.CRITICAL)
from pycep import BicepParser
from pycep.models import BicepElement
def enc(v):
    if isinstance(v, BicepElement):
        return {"e": str(v)}
    if isinstance(v, dict):
        return {"d": [[k, enc(x)] for k, x in v.items()]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if type(v) is int:
        return {"i": str(v)}
    return v
if job["setup"] == "locale":
    import locale
    for name in ("", "tr_TR.UTF-8", "de_DE.UTF-8", "C"):
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass
elif job["setup"] == "clock":
    import time
    time.time = lambda: 4102444800.5
    time.time_ns = lambda: 4102444800500000000
elif job["setup"] == "random":
    import random
    random.seed(5)
elif job["setup"] == "no gc":
    import gc
    gc.disable()
elif job["setup"] == "no stdio":
    sys.stdin = sys.stdout = sys.stderr = None
elif job["setup"] == "no user":
    import pwd
    def missing(*args):
        raise KeyError("getpwuid(): uid not found: 54321")
    pwd.getpwuid = missing
    for name in ("LOGNAME", "USER", "LNAME", "USERNAME"):
        os.environ.pop(name, None)
elif job["setup"] == "no pwd":
    sys.modules["pwd"] = None
    for name in ("LOGNAME", "USER", "LNAME", "USERNAME"):
        os.environ.pop(name, None)
elif job["setup"] == "no folder for temporary files":
    import tempfile
    tempfile.tempdir = str(pathlib.Path(sys.argv[1]).parent / "gone" / "tmp")
elif job["setup"] == "a file for temporary files":
    import tempfile
    tempfile.tempdir = sys.argv[1]
elif job["setup"] == "relative folder for temporary files":
    import tempfile
    tempfile.tempdir = ""
    os.chdir(pathlib.Path(sys.argv[1]).parent)
elif job["setup"] == "nowhere to write":
    import tempfile
    tempfile._candidate_tempdir_list = lambda: []
    tempfile.tempdir = None
elif job["setup"] == "no space":
    import resource, signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (5000, hard))
elif job["setup"] == "no cwd":
    d = pathlib.Path(sys.argv[1]).parent / "gone"
    d.mkdir(exist_ok=True)
    os.chdir(d)
    d.rmdir()
out = []
for start in range(job["instances"]):
    for lines in (False, True):
        p = BicepParser(add_line_numbers=lines, cache=job["cache"])
        for i, d in enumerate(job["docs"]):
            for how in ("text", "file"):
                try:
                    r = enc(p.parse(text=d["text"]) if how == "text" else p.parse(file_path=pathlib.Path(d["path"])))
                    ok = True
                except Exception as e:
                    r, ok = type(e).__name__, False
                out.append([lines, i, how, ok, r])
        try:
            p.parse(file_path=pathlib.Path(job["bytes"]))
            r = "a result"
        except Exception as e:
            r = type(e).__name__
        out.append([lines, -1, "file", False, r])
if job["setup"] == "no space":
    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
pathlib.Path(job["out"]).write_text(json.dumps(out), encoding="utf-8")
'''

SETUPS = ["no user", "no pwd", "no folder for temporary files", "a file for temporary files", "relative folder for temporary files", "nowhere to write", "no space"]
CACHES = ["absent", "absent", "warm", "empty", "garbage", "truncated", "first line only", "unwritable", "read-only files", "directory", "other version", "other version"]


class C22(Check):
    id = "C22"
    watch_hangs = False
    rule = (
        "4 documents (one with much non-ASCII text, one ill-formed) and a file of other bytes are parsed as text and file, with and without line numbers, in a fresh process whose hash seed, "
        "locale/encoding variables, working directory, temporary directory, umask, locale, clock, missing standard streams, -O/-X/-W/-bb options, cache option and grammar cache state (absent, warm, "
        "emptied, truncated, garbage, unwritable) are generated; results are compared with the reference model. Non-trivial: any setting differs from the defaults."
    )
    assumptions = ["a damaged cache is truncated, emptied or overwritten with text, not a crafted pickle"]
    quick_cases = 200
    thorough_cases = 6000

    def setup(self):
        target.load()
        self.dir = Path(os.environ["VERIF_SCRATCH"]) / f"c22-{os.getpid()}"
        self.dir.mkdir(exist_ok=True)
        (self.dir / "child.py").write_text(CHILD)
        self.n = 0

    def gen(self, src, tier):
        g = G(src, tier=tier)
        docs = []
        for k in range(3):
            g.fuel = src.pick([4, 15, 40])
            if k == 0:
                u = "".join(src.pick("éßøλжאあ漢\U0001f600\u00a0\u0301𝔘") for _ in range(src.int(1, 30)))
                decls = [Var([], "x", Str(u)), Meta("m", u)]
            else:
                decls = [g.decl() for _ in range(src.weighted([(1, 4), (3, 3), (6, 1)]))]
            text, spans, _ = render_doc(src, decls)
            docs.append({"text": text, "expected": enc(doc_model(decls)), "lines": enc(doc_model(decls, spans))})
        docs.append({"text": src.pick(BROKEN), "reject": True})
        env = {
            "PYTHONHASHSEED": src.pick(["0", "1", "42", "4294967295", "random"]),
            "LANG": src.pick(["C.UTF-8", "C", "POSIX", "en_US.ISO-8859-1", "de_DE.UTF-8", "tr_TR.UTF-8", "xx"]),
            "LC_ALL": src.pick(["", "", "C", "POSIX", "C.UTF-8", "ja_JP.eucJP"]),
            "PYTHONUTF8": src.pick(["", "0", "0", "1"]),
            "PYTHONCOERCECLOCALE": src.pick(["", "0"]),
            "PYTHONIOENCODING": src.pick(["", "ascii", "latin-1", "utf-16"]),
            "TZ": src.pick(["", "UTC", "Asia/Tokyo"]),
            "PYTHONOPTIMIZE": src.pick(["", "", "1", "2"]),
            "PYTHONINTMAXSTRDIGITS": src.pick(["", "", "640", "0"]),
            "NO_COLOR": src.pick(["", "1"]),
            "HOME": src.pick(["/nonexistent", "", "/"]),
            "USER": src.pick(["", "x", "a b", "é"]),
        }
        # variables of tools, and such as the sources under test might ask for
        named = sorted({w for w in target.dictionary()["words"] if w.isupper() and len(w) > 1 and w not in env and w not in ("PATH", "PYTHONPATH", "TMPDIR", "PYTHONDONTWRITEBYTECODE")})
        usual = ["CI", "DEBUG", "COLUMNS", "TERM", "PYTEST_CURRENT_TEST", "LOGLEVEL", "LOG_LEVEL", "PYCEP_DEBUG", "PYCEP_CACHE", "XDG_CACHE_HOME", "PYTHONDEVMODE", "GITHUB_ACTIONS", "LARK_CACHE"]
        value = src.pick(["1", "1", "true", "0", "x", "strict", "off"])
        for name in [*(usual if src.n(2) else []), *(named if src.n(2) else [])]:
            env[name] = value if not name.startswith("PYTHON") else "1"
        return {
            "docs": docs, "env": {k: v for k, v in env.items() if v}, "options": src.pick([[], [], ["-O"], ["-B"], ["-X", "utf8=0"], ["-X", "dev"], ["-X", "warn_default_encoding", "-W", "error::EncodingWarning:pycep.main"], ["-s"], ["-W", "error"], ["-bb", "-W", "error"], ["-X", "warn_default_encoding"], ["-OO"]]),
            "setup": src.pick(["", "", "locale", "clock", "random", "no gc", "no stdio", "no cwd", *SETUPS]), "bytes": src.pick(["7661722078203d2027ff27", "766172c3", "efbbbf76ff", "766172207820 3d2027c3a927 80".replace(" ", "")]),
            "cwd": src.pick(["/", "scratch", "ü x", "repo"]), "cache_state": src.pick(CACHES), "cache": src.n(4) < 3, "umask": src.pick([None, None, 0o077, 0]), "instances": src.pick([1, 1, 2]),
        }

    def other_version(self):
        """A copy of the package, whose grammar has the same size and lets variables be introduced by another word."""
        import shutil

        root = self.dir / "other"
        if not root.exists():
            shutil.copytree(target.REPO / "pycep", root / "pycep", ignore=shutil.ignore_patterns("__pycache__"))
            for f in (root / "pycep").rglob("*.lark"):
                f.write_bytes(f.read_bytes().replace(b'"var', b'"vra'))
        return root

    def spawn(self, case, work, tmp, repo=None):
        bad = work / "bytes.bicep"
        bad.write_bytes(bytes.fromhex(case["bytes"]))
        job = {"setup": case["setup"], "bytes": str(bad), "cache": case["cache"], "instances": case["instances"], "umask": case["umask"], "out": str(work / "out.json"), "docs": []}
        for i, d in enumerate(case["docs"]):
            p = work / f"doc{i}.bicep"
            p.write_bytes(d["text"].encode())
            job["docs"].append({"text": d["text"], "path": str(p)})
        (work / "job.json").write_text(json.dumps(job), encoding="utf-8")
        (work / "out.json").unlink(missing_ok=True)
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": str(repo or target.REPO), "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": str(tmp), **case["env"]}
        cwd = {"/": "/", "scratch": str(work), "repo": str(target.REPO)}.get(case["cwd"]) or str(work / case["cwd"])
        Path(cwd).mkdir(exist_ok=True)
        r = subprocess.run([sys.executable, *case["options"], str(self.dir / "child.py"), str(work / "job.json")], env=env, cwd=cwd, capture_output=True, timeout=600)
        if r.returncode != 0 or not (work / "out.json").exists():
            return None, r.stderr.decode("utf-8", "replace")[-1500:]
        return json.loads((work / "out.json").read_text(encoding="utf-8")), ""

    def run(self, case, ctx):
        import shutil

        self.n += 1
        work = self.dir / f"w{self.n}"
        work.mkdir()
        tmp = work / "tmp"
        tmp.mkdir()
        try:
            state = case["cache_state"]
            if state == "unwritable":
                # the temporary directory is a file: nothing can be created below it
                tmp.rmdir()
                tmp.write_text("")
            elif state != "absent":
                setup = {**case, "docs": case["docs"][:1], "cache": True, "setup": ""}
                self.spawn(setup, work, tmp, self.other_version() if state == "other version" else target.REPO)
                for f in tmp.rglob("*"):
                    if not f.is_file():
                        continue
                    data = f.read_bytes()
                    if state == "empty":
                        f.write_bytes(b"")
                    elif state == "garbage":
                        f.write_bytes(b"not a cache\n" * 50)
                    elif state == "truncated":
                        f.write_bytes(data[: len(data) * 2 // 3])
                    elif state == "first line only":
                        f.write_bytes(data.split(b"\n", 1)[0] + b"\n")
                    elif state == "read-only files":
                        f.chmod(0o400)
                    elif state == "directory":
                        f.unlink()
                        f.mkdir()
            results, err = self.spawn(case, work, tmp)
            if results is None:
                raise Violation(f"the process failed in environment {self.describe(case)}\n{err}")
            for round_ in range(1 if state == "unwritable" else 2):
                if round_:
                    results, err = self.spawn(case, work, tmp)
                    if results is None:
                        raise Violation(f"the second process failed in environment {self.describe(case)}\n{err}")
                self.judge(case, results)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        ctx.label(f"cache:{state}", f"hash seed {case['env'].get('PYTHONHASHSEED')}", f"LC_ALL={case['env'].get('LC_ALL', '')} LANG={case['env'].get('LANG', '')}")
        return True

    def describe(self, case):
        return json.dumps({k: case[k] for k in ("env", "options", "setup", "cwd", "cache_state", "cache", "umask")}, ensure_ascii=False)

    def judge(self, case, results):
        for lines, i, how, ok, value in results:
            if i < 0:
                if value != "UnicodeDecodeError":
                    raise Violation(f"a file of bytes that are no UTF-8 ({case['bytes']}) gives {value}, line numbers {'on' if lines else 'off'}, environment {self.describe(case)}")
                continue
            doc = case["docs"][i]
            what = f"document {i} as {how}, line numbers {'on' if lines else 'off'}, environment {self.describe(case)}"
            if doc.get("reject"):
                if ok:
                    raise Violation(f"{what}: ill-formed document accepted\n--- document\n{shown(doc['text'])}")
                continue
            if how == "file" and "\r" in doc["text"]:
                continue  # reading normalises line breaks
            if not ok:
                raise Violation(f"{what}: valid document rejected with {value}\n--- document\n{shown(doc['text'])}")
            d = diff(dec(value), dec(doc["lines" if lines else "expected"]), El)
            if d:
                raise Violation(f"{what}: {d}\n--- document\n{shown(doc['text'])}")


CHECK = C22()
