"""C02: concurrent parses with one parser do not influence each other."""

import os
import sys
import threading
import time

from vlib import big, target
from vlib.ast import doc_model
from vlib.common import render_doc, shown
from vlib.engine import Check, Source, Violation
from vlib.gen import G
from vlib.values import dec, diff, enc

from .c20 import BROKEN


class Schedule:
    """Runs thread bodies one at a time; which one runs next, and for how long, is the case's choice.

    A running thread counts trace events (lines of pycep, calls within lark); after `slice` events the
    baton moves on.  If the holder stops making progress (it waits for a lock another thread holds),
    all threads are released: the schedule is then up to the system, the oracle stays the same.
    """

    def __init__(self, slices, unit="all"):
        self.slices = slices
        self.unit = unit
        self.pos = 0
        self.left = 0
        self.sems = []
        self.alive = []
        self.free = False
        self.events = 0
        self.switches = 0
        self.lock = threading.Lock()

    def next_slice(self):
        if self.pos < len(self.slices):
            s = self.slices[self.pos]
            self.pos += 1
            return s
        return None

    def hand_over(self, me, finished=False):
        with self.lock:
            if finished:
                self.alive.remove(me)
            nxt = None
            s = self.next_slice()
            others = [t for t in self.alive if t != me]
            if s is None:
                # schedule used up: everybody runs to the end, one after the other
                self.left = 1 << 60
                if finished and others:
                    nxt = others[0]
            else:
                self.left = s[1]
                if others:
                    nxt = others[s[0] % len(others)]
            if nxt is not None:
                self.switches += 1
        if nxt is not None:
            self.sems[nxt].release()
            if not finished and not self.free:
                self.sems[me].acquire()

    def tick(self, me):
        self.events += 1
        if self.free:
            return
        self.left -= 1
        if self.left <= 0:
            self.hand_over(me)

    def tracer(self, me, roots):
        pycep_root, lark_root = roots

        opcodes, inside_lark = self.unit == "opcode", self.unit == "all"

        def local(frame, event, arg):
            if event == "opcode" or event != "exception" and not opcodes:
                self.tick(me)
            return local

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if name.startswith(pycep_root):
                frame.f_trace_opcodes = opcodes
                if not opcodes:
                    self.tick(me)
                return local
            if inside_lark and name.startswith(lark_root):
                self.tick(me)
            return None

        return trace

    def run(self, bodies, roots):
        n = len(bodies)
        self.alive = list(range(n))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        done = [None] * n

        def main(i):
            self.sems[i].acquire()
            sys.settrace(self.tracer(i, roots))
            try:
                done[i] = bodies[i]()
            finally:
                sys.settrace(None)
                self.hand_over(i, finished=True)

        threads = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        s = self.next_slice()
        self.left = s[1] if s else 1 << 60
        self.sems[s[0] % n if s else 0].release()
        last, since = -1, time.monotonic()
        for t in threads:
            while t.is_alive():
                t.join(0.05)
                if self.events != last:
                    last, since = self.events, time.monotonic()
                elif not self.free and time.monotonic() - since > 1.0:
                    self.free = True
                    for sem in self.sems:
                        for _ in range(1000):
                            sem.release()
                elif time.monotonic() - since > 120:
                    return None  # a real deadlock
        return done


WARM_UP = """import {a as b} from './x'
@minValue(-1)
param p string = '''a'''
resource r 'A/b@1' = if (a) {
  resource k 'c' = [for i in items(f(1)): {
    a: b.c[0]
  }]
}
module m 'br:x.azurecr.io/a:1' = {}
func f(a int) string => a ? b : x => y
"""


class C02(Check):
    id = "C02"
    rule = (
        "2..3 threads each making 1..3 calls (parse of valid or ill-formed text, create_tree) on 1..2 shared parsers; the harness decides after "
        "how many executed lines of pycep and calls within lark (or lines of pycep, or byte codes of pycep) which thread continues (1..200 switches of 1..2000 events each). "
        "Besides, for ten pairs of calls, every single line of pycep (for three every 4th byte code; thorough: all, and pairs of stops) at which one can be stopped for the other. Each call must give the "
        "reference model's result, or the error it gives alone. Non-trivial: at least two switches, i.e. one call was stopped within, while several calls are in flight."
    )
    assumptions = [
        "switches happen at lines and byte codes of pycep and calls of lark, not elsewhere within lark",
        "if the code under test takes locks, blocked schedules continue unscheduled",
    ]
    quick_cases = 2400
    thorough_cases = 80000

    def setup(self):
        self.shared = [target.parser(False), target.parser(True)]
        import lark

        m = target.load()
        self.roots = roots = (os.path.dirname(os.path.abspath(m["pycep"].__file__)) + os.sep, os.path.dirname(os.path.abspath(lark.__file__)) + os.sep)

        # op code events of a function only start with its second traced call
        Schedule([[0, 1 << 40]], "opcode").run([lambda: target.call(self.shared[0].parse, text=WARM_UP)], roots)

    def gen(self, src, tier):
        g = G(src, tier=tier)
        docs = []
        for _ in range(src.int(2, 4)):
            if docs and src.n(6) == 5:
                docs.append({"text": src.pick(BROKEN), "reject": True})
                continue
            g.fuel = src.pick([4, 10, 30])
            g.max_depth = src.pick([1, 2, 4])
            decls = [g.decl(child_depth=2) for _ in range(src.weighted([(1, 4), (2, 3), (4, 1)]))]
            text, spans, _ = render_doc(src, decls)
            docs.append({"text": text, "expected": enc(doc_model(decls)), "lines": enc(doc_model(decls, spans))})
        threads = []
        for _ in range(src.weighted([(2, 4), (3, 1)])):
            threads.append([[src.weighted([("parse", 8), ("tree", 1)]), src.n(len(docs)), src.weighted([(0, 3), (1, 2)])] for _ in range(src.weighted([(1, 4), (2, 2), (3, 1)]))])
        slices = []
        unit = src.weighted([("all", 3), ("line", 3), ("opcode", 2)])
        hi = src.pick({"all": [3, 10, 40, 200, 2000], "line": [2, 5, 20, 60, 200], "opcode": [3, 10, 40, 200, 1000]}[unit])
        for _ in range(src.pick([2, 5, 20, 60, 200])):
            slices.append([src.n(3), src.int(1, hi)])
        return {"docs": docs, "threads": threads, "slices": slices, "unit": unit}

    def fixed(self, tier):
        """One thread is stopped at each of its lines within pycep in turn while the other one makes its calls, for a few pairs of calls."""

        def doc(decls):
            text, spans, _ = render_doc(Source(prefix=[]), decls)
            return {"text": text, "expected": enc(doc_model(decls)), "lines": enc(doc_model(decls, spans))}

        kid = big.Child("k", "d", False, big.Object([("v", big.MStr("it's"), False)]))
        docs = [
            doc([
                big.Import([("ta", "tb")], "./x.bicep", True),
                big.resource(big.Object([("z", big.Call("min", [big.Int("1"), big.Id("b")]), False)], [(0, kid)])),
                big.Param([big.Deco("minValue", big.Un("-", big.Int("3")))], "p", big.TName("int"), False, big.Null()),
            ]),
            doc([
                big.Import([("ua", None)], "./y.bicep", True),
                big.resource(big.IfBody(big.Id("c"), big.Object([("n", big.MStr("\n x"), False)], [(0, big.Child("h", "g", True, big.Object([])))])), "q"),
                big.Func([big.Deco("foo", big.Str("s"))], "p", [("a1", big.TName("int"))], big.TName("string"), big.Call("foo", [big.Id("a1")])),
            ]),
            {"text": "var x = '''a", "reject": True},
            {"text": "var x = [for i in]", "reject": True},
            {"text": "var a = b\nmodule m 'br:x' = {}\n", "reject": True},
        ]
        P, T = "parse", "tree"
        plans = [
            ([[P, 0, 0]], [[P, 1, 0]]), ([[P, 1, 1]], [[P, 0, 1]]), ([[P, 0, 1]], [[P, 1, 0]]), ([[P, 0, 0]], [[P, 2, 0]]), ([[P, 2, 0]], [[P, 0, 0]]), ([[P, 1, 1]], [[P, 4, 1]]),
            ([[P, 3, 0]], [[P, 2, 1]]), ([[T, 0, 0]], [[T, 1, 0]]), ([[P, 0, 0], [P, 0, 0]], [[P, 1, 0], [P, 3, 0]]), ([[P, 0, 0]], [[P, 0, 1]]),
        ]
        thorough = tier != "quick"
        out = []
        for i, plan in enumerate(plans):
            for k in range(1, 300 if i < 4 or thorough else 60):
                out.append({"docs": docs, "threads": list(plan), "slices": [[0, k], [1, 1 << 40]], "unit": "line"})
            if i < 3 or thorough:
                for k in range(1, 960, 1 if thorough else 4):
                    out.append({"docs": docs, "threads": list(plan), "slices": [[0, k], [1, 1 << 40]], "unit": "opcode"})
            if thorough:
                # both are stopped once
                for k in range(1, 300, 5):
                    for j in range(1, 300, 5):
                        out.append({"docs": docs, "threads": list(plan), "slices": [[0, k], [1, j], [0, 1 << 40]], "unit": "line"})
        return out

    def run(self, case, ctx):
        docs = case["docs"]
        alone = {}
        for calls in case["threads"]:
            for op, i, p in calls:
                if (op, i, p) not in alone and (op == "tree" or docs[i].get("reject")):
                    fn = self.shared[p].parse if op == "parse" else self.shared[p].create_tree
                    alone[op, i, p] = target.call(fn, text=docs[i]["text"])

        def body(calls):
            def work():
                return [target.call(self.shared[p].parse if op == "parse" else self.shared[p].create_tree, text=docs[i]["text"]) for op, i, p in calls]

            return work

        sched = Schedule(case["slices"], case["unit"])
        results = sched.run([body(c) for c in case["threads"]], self.roots)
        if results is None:
            raise Violation("the threads do not finish (deadlock)")
        el = target.load()["BicepElement"]
        for t, (calls, outs) in enumerate(zip(case["threads"], results)):
            if outs is None:
                raise Violation(f"thread {t} died")
            for (op, i, p), out in zip(calls, outs):
                doc = docs[i]
                what = f"thread {t}: {op}"
                if (op, i, p) in alone:
                    want = alone[op, i, p]
                    a = (want.ok, want.value if want.ok else target.error_key(want.exc))
                    b = (out.ok, out.value if out.ok else target.error_key(out.exc))
                    if a != b:
                        raise Violation(f"{what} gives {str(b)[:500]}, alone {str(a)[:500]}\n--- document\n{shown(doc['text'])}\n--- case\n{shown(str(case['threads']))} {case['slices']}")
                    continue
                if not out.ok:
                    raise Violation(f"{what}: valid document rejected with {out.describe()}\n--- document\n{shown(doc['text'])}")
                d = diff(out.value, dec(doc["lines" if p == 1 else "expected"]), el)
                if d:
                    raise Violation(f"{what}: {d}\n--- document\n{shown(doc['text'])}\n--- case\n{shown(str(case['threads']))} {case['slices']}")
        ctx.label(f"{len(case['threads'])} threads")
        if sched.free:
            ctx.label("released (blocked by a lock)")
        if sched.switches > 20:
            ctx.label("20+ switches")
        ctx.label(f"unit: {case['unit']}")
        return sched.switches >= 2


CHECK = C02()
