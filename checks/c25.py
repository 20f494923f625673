"""C25: parsers created at the same time, or after a crash, do not spoil each other."""

import base64
import builtins
import fcntl
import hashlib
import io
import json
import os
import select
import shutil
import signal
import tempfile
import threading
import time
import traceback
import zlib
from pathlib import Path

from vlib import target
from vlib.ast import doc_model
from vlib.common import render_doc, shown
from vlib.engine import Check, Violation
from vlib.gen import G
from vlib.values import dec, diff, enc

from .c20 import BROKEN

PROBE = """targetScope = 'subscription'
import {a as b} from './x.bicep'
metadata m = 'x'
@description('d')
param p (string | int[]) = 'a${b}c${f('x')}'
type t = {a: string}
func g(a string) string => toUpper(a)
var x = [
  a.b[0]!.c
  !f(1, -2) && g ?? h
  {a: 'x', 'b': 1 + 2 * 3 == 4 ? i : j}
  '''m'''
]
resource r 'A.B/c@1' = if (a) {
  name: 'x'
  resource s 'd' existing = {
    name: az.resourceGroup().id
  }
}
module n 'br:acr.azurecr.io/a/b:1' = [for (k, i) in items(l): {
  name: k::z.listKeys('1').y
}]
var y = [for k in l: k]
output o array = map(range(0, 2), i => i)
"""
WATCHED_OS = ["open", "replace", "rename", "unlink", "remove", "link", "symlink", "stat", "lstat", "access", "mkdir", "rmdir", "truncate", "ftruncate", "write", "fsync", "listdir", "scandir"]


MANY = 20000  # operations; usually there are ten


class Gate:
    """Every operation on a file below `root` waits for its turn, and is recorded."""

    def __init__(self, root, step, log=None):
        self.root, self.step = str(root), step
        self.log = [] if log is None else log
        self.saved = []
        self.fds = {}

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            return os.fspath(path).startswith(self.root)
        except TypeError:
            return False

    def name(self, path):
        return self.fds[path] if isinstance(path, int) else os.fspath(path)[len(self.root) + 1 :]

    def install(self):
        gate = self

        class Raw(io.FileIO):
            def write(self, b):
                gate.step()
                at = self.tell()
                n = super().write(b)
                gate.log.append(("write", self.short, at, bytes(b)[:n]))
                return n

            def readinto(self, b):
                gate.step()
                gate.log.append(("read", self.short))
                return super().readinto(b)

            def readall(self):
                gate.step()
                gate.log.append(("read", self.short))
                return super().readall()

            def read(self, n=-1):
                gate.step()
                gate.log.append(("read", self.short))
                return super().read(n)

            def truncate(self, *a):
                gate.step()
                gate.log.append(("other", "truncate"))
                return super().truncate(*a)

        real_open = io.open

        def opened(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not gate.mine(file):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not isinstance(file, int):
                gate.step()
                gate.log.append(("read", gate.name(file)) if mode in ("r", "rb", "rt") else ("create", gate.name(file)) if mode in ("w", "wb", "wt") else ("other", mode))
            raw = Raw(file, mode.replace("b", "").replace("t", ""), closefd, opener)
            raw.short = gate.name(file)
            if buffering == 0:
                return raw
            if "+" in mode:
                buf = io.BufferedRandom(raw)
            else:
                buf = (io.BufferedReader if "r" in mode else io.BufferedWriter)(raw)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)

        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open)]
        builtins.open = io.open = opened
        for name in WATCHED_OS:
            real = getattr(os, name)

            def wrapped(path=".", *a, real=real, name=name, **k):
                if not gate.mine(path):
                    return real(path, *a, **k)
                gate.step()
                short = gate.name(path)
                if name in ("stat", "lstat", "access", "listdir", "scandir"):
                    gate.log.append(("read", short))
                elif name in ("replace", "rename") and a and gate.mine(a[0]):
                    gate.log.append(("replace", short, gate.name(a[0])))
                elif name in ("unlink", "remove"):
                    gate.log.append(("unlink", short))
                elif name == "open" and a and a[0] & os.O_EXCL:
                    gate.log.append(("exclusive", short))
                elif name == "open" and a and a[0] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) == 0:
                    gate.log.append(("read", short))
                elif name != "fsync":
                    gate.log.append(("other", name))
                r = real(path, *a, **k)
                if name == "open":
                    gate.fds[r] = short
                return r

            self.saved.append((os, name, real))
            setattr(os, name, wrapped)
        for name in ("flock", "lockf", "fcntl"):
            real = getattr(fcntl, name)

            def locked(*a, real=real, name=name, **k):
                gate.log.append(("other", name))
                return real(*a, **k)

            self.saved.append((fcntl, name, real))
            setattr(fcntl, name, locked)

    def remove(self):
        for mod, name, real in self.saved:
            setattr(mod, name, real)


def independent(log):
    """Do the operations of this process not depend on what other ones do once it has found nothing to read?"""
    writing = False
    for op in log:
        if op[0] == "other":
            return False
        if op[0] != "read":
            writing = True
        elif writing:
            return False
    return writing


def replay(logs, turns, stop):
    """The files after the given processes' operations, in the order the turns say (the first `stop` of them only)."""
    files, handles, at = {}, [{} for _ in logs], [0] * len(logs)
    turns = [list(t) for t in turns]
    done = 0
    while any(at[i] < len(log) for i, log in enumerate(logs)) and not (stop and done >= stop):
        while turns and turns[0][1] <= 0:
            turns.pop(0)
        i = turns[0][0] if turns else 0
        if turns:
            turns[0][1] -= 1
        while at[i] >= len(logs[i]):
            i = (i + 1) % len(logs)
        op = logs[i][at[i]]
        at[i] += 1
        done += 1
        h = handles[i]
        if op[0] == "create":
            h[op[1]] = files.setdefault(op[1], bytearray())
            del h[op[1]][:]
        elif op[0] == "exclusive":
            h[op[1]] = files[op[1]] = bytearray()
        elif op[0] == "write":
            f = h[op[1]]
            f.extend(bytes(max(0, op[2] - len(f))))
            f[op[2] : op[2] + len(op[3])] = op[3]
        elif op[0] == "replace" and op[1] in files:
            files[op[2]] = files.pop(op[1])
        elif op[0] == "unlink":
            files.pop(op[1], None)
    return files


class C25(Check):
    id = "C25"
    watch_hangs = False
    rule = (
        "Free: 2..4 forked processes, or threads of one, create parsers sharing a temporary directory; every operation on a file there (open, each write, read, "
        "rename, ...) waits for its turn, which a generated schedule hands out; at a generated operation a process may be killed; the directory is empty at "
        "first, or holds a cache that was left truncated or with a zeroed end. All of the parsers, and those of two later processes, must then give the "
        "reference model's results for three documents and reject an ill-formed one with a documented error. Recorded: the same for a process that finds the "
        "files which 2..3 recorded processes leave when their recorded operations are interleaved, or cut off, as generated. Non-trivial: two or more took "
        "turns; files that no case of this worker had before."
    )
    assumptions = ["operations are the calls of Python's file objects and os functions; a crash loses nothing that was written before it"]
    quick_cases = 3000
    thorough_cases = 40000

    def setup(self):
        target.load()
        self.dir = Path(os.environ["VERIF_SCRATCH"]) / f"c25-{os.getpid()}"
        self.dir.mkdir(exist_ok=True)
        self.n = 0
        self.warm = self.logs = None
        self.seen = set()

    def gen(self, src, tier):
        g = G(src, tier=tier)
        docs = []
        for _ in range(2):
            g.fuel = src.pick([6, 20, 40])
            decls = [g.decl() for _ in range(src.int(1, 4))]
            text, _, _ = render_doc(src, decls)
            docs.append({"text": text, "expected": enc(doc_model(decls))})
        docs.append({"text": src.pick(BROKEN), "reject": True})
        if src.n(32) < 30:
            k = src.weighted([(2, 6), (3, 2)])
            return {
                "family": "recorded", "docs": docs, "twins": src.n(4) < 3, "logs": [src.n(1 << 16) for _ in range(k)],
                "turns": [[src.n(k), src.weighted([(1, 6), (2, 2), (3, 1)])] for _ in range(src.pick([6, 12, 24]))],
                "stop": src.weighted([(0, 3), (1, 1)]) and src.int(1, 40),
            }
        k = src.weighted([(2, 5), (3, 3), (4, 1)])
        threads = src.n(4) == 3
        return {
            "family": "free", "docs": docs, "actors": k, "threads": threads, "junk": [src.pick([0, 0, 1000, 2000, 3000, 5000, 777, src.n(6000)]) for _ in range(k)],
            "turns": [[src.n(k), src.weighted([(1, 8), (2, 2), (3, 1), (6, 1)])] for _ in range(src.pick([0, 6, 16, 40, 40]))],
            "kill": None if threads or src.n(3) else [src.n(k), src.int(1, 14)],
            "start": src.weighted([("absent", 8), ("warm", 1), ("truncated", 2), ("zeroed end", 2)]), "cut": src.int(0, 1000),
        }

    # ---------------------------------------------------------------- what an actor does
    def judge(self, parser, docs):
        """Problems of a parser, as text."""
        el = target.load()["BicepElement"]
        for d in [*docs, {"text": PROBE, "expected": self.probe}]:
            out = target.call(parser.parse, text=d["text"])
            if d.get("reject"):
                if out.ok:
                    return f"ill-formed document accepted\n--- document\n{shown(d['text'])}"
                if not target.documented_error(out.exc):
                    return f"undocumented {out.describe()}\n--- document\n{shown(d['text'])}"
            elif not out.ok:
                return f"valid document rejected with {out.describe()}\n--- document\n{shown(d['text'])}"
            else:
                x = diff(out.value, dec(d["expected"]), el)
                if x:
                    return f"{x}\n--- document\n{shown(d['text'])}"
        return None

    def actor(self, docs, junk):
        keep = [object() for _ in range(junk)]  # noqa: F841  other objects, other addresses
        try:
            parser = target.load()["BicepParser"]()
        except Exception:  # noqa: BLE001
            return lambda: "no parser could be created\n" + traceback.format_exc()[-1500:]
        return lambda: self.judge(parser, docs)

    def fork(self, body):
        """Runs body() in a child; (pid, fd from which its JSON result can be read)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r
        status = 1
        try:
            os.close(r)
            data = json.dumps(body()).encode()
            while data:
                data = data[os.write(w, data[:60000]) :]
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(status)

    def collect(self, pid, fd, seconds=240):
        """What the child returned, "died", or "hangs"."""
        parts = []
        end = time.monotonic() + seconds
        while True:
            ready, _, _ = select.select([fd], [], [], max(0, end - time.monotonic()))
            b = os.read(fd, 65536) if ready else None
            if b is None:
                os.kill(pid, signal.SIGKILL)
            if not b:
                break
            parts.append(b)
        os.close(fd)
        os.waitpid(pid, 0)
        return "hangs" if b is None else json.loads(b"".join(parts)) if parts else "died"

    def race(self, case, tmp):
        """Runs the actors under the schedule: (results, turns taken per actor)."""
        k = case["actors"]
        want = [os.pipe() for _ in range(k)]  # actor -> scheduler: 'w' waits, 'd' done
        may = [os.pipe() for _ in range(k)]
        procs = {}

        def stepper(i):
            done = threading.local()

            def step():
                if getattr(done, "off", False):
                    return
                os_write(want[i][1], b"w")
                os_read(may[i][0], 1)

            return step

        os_write, os_read = os.write, os.read

        if case["threads"]:

            def all_threads():
                tempfile.tempdir = str(tmp)
                local = threading.local()

                def step():
                    i = getattr(local, "i", None)
                    if i is not None:
                        os_write(want[i][1], b"w")
                        os_read(may[i][0], 1)

                gate = Gate(tmp, step)
                gate.install()
                out = [None] * k

                def run(i):
                    local.i = i
                    try:
                        out[i] = self.actor(case["docs"], case["junk"][i])
                    finally:
                        local.i = None
                        os_write(want[i][1], b"d")

                ts = [threading.Thread(target=run, args=(i,)) for i in range(k)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                gate.remove()
                return [f() if f else "died" for f in out]

            procs[0] = self.fork(all_threads)
        else:
            for i in range(k):

                def one(i=i):
                    tempfile.tempdir = str(tmp)
                    gate = Gate(tmp, stepper(i))
                    gate.install()
                    f = self.actor(case["docs"], case["junk"][i])
                    gate.remove()
                    os_write(want[i][1], b"d")
                    return f()

                procs[i] = self.fork(one)
        taken, waiting, alive = [0] * k, set(), set(range(k))
        turns = [list(t) for t in case["turns"]]
        killed = None
        deadline = time.monotonic() + 120
        while alive:
            # whoever is not waiting is busy: let it come to its next operation
            busy = [i for i in alive if i not in waiting]
            if busy:
                ready, _, _ = select.select([want[i][0] for i in busy], [], [], 10)
                for i in busy:
                    if want[i][0] in ready:
                        b = os.read(want[i][0], 1)
                        if b == b"w":
                            waiting.add(i)
                        else:
                            alive.discard(i)
                if ready:
                    continue
                if not case["threads"]:
                    for i in busy:
                        # gone without a word
                        if os.waitid(os.P_PID, procs[i][0], os.WEXITED | os.WNOHANG | os.WNOWAIT):
                            alive.discard(i)
                if not waiting:
                    if time.monotonic() > deadline:
                        break
                    continue
                # somebody waits for something else (a lock perhaps): the others go on
            if not waiting:
                continue
            if sum(taken) > MANY:
                break
            while turns and turns[0][1] <= 0:
                turns.pop(0)
            if turns:
                i = turns[0][0]
                turns[0][1] -= 1
                if i not in waiting:
                    i = sorted(waiting)[i % len(waiting)]
            else:
                i = min(waiting)
            taken[i] += 1
            waiting.discard(i)
            if case["kill"] and case["kill"][0] == i and case["kill"][1] == taken[i]:
                os.kill(procs[i][0], signal.SIGKILL)
                alive.discard(i)
                killed = i
                continue
            os.write(may[i][1], b"g")
        gave_up = bool(alive)
        results = {}
        for i, (pid, fd) in procs.items():
            if gave_up:
                os.kill(pid, signal.SIGKILL)
            results[i] = self.collect(pid, fd)
        for a, b in want + may:
            os.close(a)
            os.close(b)
        if gave_up and sum(taken) > MANY:
            raise Violation(f"{k} {'threads' if case['threads'] else 'processes'} creating parsers find no end: {taken} operations on files")
        if gave_up:
            return None, taken
        if case["threads"]:
            r = results[0]
            results = dict(enumerate(r)) if isinstance(r, list) else {0: r}
        results.pop(killed, None)
        return results, taken

    def alone(self, docs, tmp):
        def body():
            tempfile.tempdir = str(tmp)
            return self.actor(docs, 0)()

        r = self.collect(*self.fork(body), 20)
        # for want of memory or time no process fails again
        return r if r not in ("died", "hangs") else self.collect(*self.fork(body))

    def record(self):
        """What single processes do, beginning with an empty directory: their operations, as far as these don't hinge on others."""
        self.logs = []
        for i in range(24):
            tmp = self.dir / "record"
            tmp.mkdir()

            def body(junk=i * 337):
                tempfile.tempdir = str(tmp)
                log = []
                gate = Gate(tmp, lambda: None, log)
                gate.install()
                self.actor([], junk)
                gate.remove()
                return [[x if not isinstance(x, bytes) else base64.b64encode(x).decode() for x in op] for op in log]

            log = self.collect(*self.fork(body))
            shutil.rmtree(tmp)
            if log == "died" or not independent(log):
                self.logs = []
                break
            self.logs.append([("write", op[1], op[2], base64.b64decode(op[3])) if op[0] == "write" else tuple(op) for op in log if op[0] != "read"])
        # same sizes, other contents: a mixture may go unnoticed
        shape = [[(op[0], len(op[3])) if op[0] == "write" else op[:1] for op in log] for log in self.logs]
        total = [sum(len(op[3]) for op in log if op[0] == "write") for log in self.logs]
        self.twins = [
            [i, j] for i, x in enumerate(self.logs) for j, y in enumerate(self.logs)
            if i != j and total[i] == total[j] and x != y and len(shape[i]) == len(shape[j])
        ]

    def recorded(self, case, ctx):
        tmp = self.dir / "replayed"
        if "files" not in case:
            if self.logs is None:
                self.record()
            if not self.logs:
                ctx.label("operations depend on others")
                return False
            pick = [n % len(self.logs) for n in case["logs"]]
            if case["twins"] and self.twins:
                pick[:2] = self.twins[case["logs"][0] % len(self.twins)]
            excl = [op[1] for i in pick for op in self.logs[i] if op[0] == "exclusive"]
            if len(set(excl)) < len(excl):
                ctx.label("the same log twice")
                return False
            files = replay([self.logs[i] for i in pick], case["turns"], case["stop"])
        else:
            files = {k: zlib.decompress(base64.b64decode(v)) for k, v in case["files"].items()}
        sign = hashlib.sha256(repr(sorted((k, hashlib.sha256(v).hexdigest()) for k, v in files.items())).encode()).digest()
        if sign in self.seen and "files" not in case:
            ctx.label("files as before")
            return False
        self.seen.add(sign)
        tmp.mkdir()
        try:
            for name, data in files.items():
                (tmp / name).write_bytes(data)
            r = self.alone(case["docs"], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if r:
            v = Violation(f"with the files {len(case['logs'])} processes left behind that wrote at the same time: {r}")
            v.case = {**case, "files": {k: base64.b64encode(zlib.compress(bytes(d))).decode() for k, d in files.items()}}
            raise v
        ctx.label("recorded operations", "recorded, stopped halfway" if case["stop"] else "recorded, all done")
        return True

    def run(self, case, ctx):
        if self.warm is None:
            self.first()
        if case["family"] == "recorded":
            return self.recorded(case, ctx)
        self.n += 1
        tmp = self.dir / f"t{self.n}"
        tmp.mkdir()
        try:
            if case["start"] != "absent":
                for name, data in self.warm.items():
                    cut = len(data) * case["cut"] // 1000
                    if case["start"] == "truncated":
                        data = data[:cut]
                    elif case["start"] == "zeroed end":
                        data = data[:cut] + bytes(len(data) - cut)
                    (tmp / name).write_bytes(data)
            results, taken = self.race(case, tmp)
            if results is None:
                ctx.label("gave up")
                return False
            who = "threads" if case["threads"] else "processes"
            setting = f"{case['actors']} {who}, directory {case['start']}, operations per actor {taken}" + (f", number {case['kill'][0]} killed at its operation {case['kill'][1]}" if case["kill"] else "")
            for i, r in sorted(results.items()):
                if r == "hangs":
                    ctx.label("gave up")
                elif r:
                    raise Violation(f"parser number {i} of those created at the same time ({setting}): {r}")
            for later in ("first", "second"):
                r = self.alone(case["docs"], tmp)
                if r:
                    raise Violation(f"the {later} parser created afterwards ({setting}): {r}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        ctx.label(who, f"start: {case['start']}", f"{case['actors']} actors")
        if case["kill"]:
            ctx.label("one was killed" if case["kill"][1] <= taken[case["kill"][0]] else "ended before the kill")
        return sum(1 for t in taken if t) > 1

    def first(self):
        """What one process alone does: the files it leaves, and the result for the fixed document."""
        tmp = self.dir / "warm"
        tmp.mkdir()

        def body():
            tempfile.tempdir = str(tmp)
            target.load()["BicepParser"]()
            return encode(target.load()["BicepParser"](cache=False).parse(text=PROBE), target.load()["BicepElement"])

        self.probe = self.collect(*self.fork(body))
        if self.probe == "died":
            raise Violation("a process alone can't create a parser")
        self.warm = {f.name: f.read_bytes() for f in tmp.iterdir() if f.is_file()}


def encode(v, el):
    if isinstance(v, el):
        return {"e": str(v)}
    if isinstance(v, dict):
        return {"d": [[k, encode(x, el)] for k, x in v.items()]}
    if isinstance(v, list):
        return [encode(x, el) for x in v]
    return v


CHECK = C25()
