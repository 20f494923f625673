"""Property-based testing engine: choice-sequence generation, shrinking, sharding, evidence.

Every random decision of a case goes through `Source.n`, which records it.  A case is therefore a
pure function of its choice sequence, a failing case is shrunk by shrinking that sequence, and the
shrunk *concrete* case (texts, schedules and expected results, not choices) becomes the replay file.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
REPLAYS = EVIDENCE / "replays"
KNOWN_FILE = VERIF / "known_findings.txt"

HARNESS_RECURSION = 12000  # for deeply nested cases; the code under test gets the default, see target.call
CPU_HANG_S = 90  # CPU seconds one case may burn without finishing (typical: a few milliseconds)


class Violation(Exception):
    """The property is broken for this case."""

    def __init__(self, message: str, known: str | None = None):
        super().__init__(message)
        self.known = known  # key of a listed known finding this failure is an instance of


class Overrun(Exception):
    pass


class Source:
    """Recorded source of decisions; smaller numbers mean simpler cases."""

    LIMIT = 60000

    def __init__(self, rng: random.Random | None = None, prefix: list[int] | None = None):
        self.rng = rng
        self.prefix = prefix
        self.choices: list[int] = []

    def n(self, k: int) -> int:
        """An integer in [0, k)."""
        i = len(self.choices)
        if i >= self.LIMIT:
            raise Overrun
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= k:
                v = k - 1
        else:
            v = int(self.rng.random() * k)
        self.choices.append(v)
        return v

    def int(self, lo: int, hi: int) -> int:
        return lo + self.n(hi - lo + 1)

    def p(self, num: int, den: int) -> bool:
        """True with probability num/den; the shrinker prefers False."""
        return self.n(den) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def weighted(self, pairs):
        total = 0
        for _, w in pairs:
            total += w
        r = self.n(total)
        for item, w in pairs:
            r -= w
            if r < 0:
                return item
        raise AssertionError

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.n(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """Per-shard bookkeeping handed to a check's `run`."""

    def __init__(self):
        self.labels: Counter[str] = Counter()
        self.nontrivial = False
        self.quiet = False

    def label(self, *names: str) -> None:
        if not self.quiet:
            for name in names:
                self.labels[name] += 1


class Check:
    id = ""
    rule = ""
    assumptions: list[str] = []
    quick_cases = 4000
    thorough_cases = 200000
    shards = 8

    def setup(self) -> None:
        """Once per worker process."""

    def gen(self, src: Source, tier: str) -> dict:
        raise NotImplementedError

    def fixed(self, tier: str) -> list:
        """Enumerated cases (or functions that build them) that every run includes besides the generated ones."""
        return []

    def run(self, case: dict, ctx: Ctx) -> bool:
        """Raises Violation; returns whether the case was non-trivial."""
        raise NotImplementedError

    def show(self, case: dict) -> object:
        out = {}
        for k, v in case.items():
            s = v if isinstance(v, str) else json.dumps(v, ensure_ascii=False, default=str)
            out[k] = s if len(s) <= 1200 else s[:1200] + f"... ({len(s)} chars)"
        return out


def judge(check: Check, case: dict, ctx: Ctx) -> bool:
    """check.run; an oracle that cannot even read the result has found one that is not as documented."""
    try:
        return check.run(case, ctx)
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"the result does not have the documented structure: {type(e).__name__}: {str(e)[:300]} ({Path(where.filename).name}:{where.lineno})") from e


def case_key(case: dict) -> bytes:
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def attempt(check: Check, choices: list[int], tier: str, ctx: Ctx):
    """Re-generates from choices and runs; returns (used choices, case, violation) or None."""
    src = Source(prefix=choices)
    try:
        case = check.gen(src, tier)
    except Overrun:
        return None
    try:
        judge(check, case, ctx)
    except Violation as v:
        return src.choices, case, v
    return None


def shrink(check: Check, choices: list[int], case: dict, viol: Violation, tier: str, budget_s: float = 25.0, budget_n: int = 3000):
    """Greedy choice-sequence shrinking; keeps the known/unknown status of the failure."""
    ctx = Ctx()
    ctx.quiet = True
    t0 = time.monotonic()
    best, best_case, best_v = list(choices), case, viol
    tried = 0
    seen = set()

    def test(cand):
        nonlocal best, best_case, best_v, tried
        key = tuple(cand)
        if key in seen:
            return False
        seen.add(key)
        tried += 1
        if tried > budget_n or time.monotonic() - t0 > budget_s:
            raise StopIteration
        try:
            res = attempt(check, cand, tier, ctx)
        except (StopIteration, KeyboardInterrupt):
            raise
        except Exception:
            return False
        if res is None or res[2].known != viol.known:
            return False
        used = res[0]
        if (len(used), used) < (len(best), best):
            best, best_case, best_v = used, res[1], res[2]
            return True
        return False

    try:
        improved = True
        while improved:
            improved = False
            for size in (64, 32, 16, 8, 4, 3, 2, 1):
                i = len(best) - size
                while i >= 0:
                    if test(best[:i] + best[i + size :]):
                        improved = True
                        i = min(i, len(best)) - size
                    else:
                        # deleting may need a preceding size/length choice lowered too
                        if i > 0 and best[i - 1] > 0 and size <= 8:
                            if test(best[: i - 1] + [best[i - 1] - 1] + best[i + size :]):
                                improved = True
                        i -= max(1, size // 2) if size > 1 else 1
            i = 0
            while i < len(best):
                if best[i]:
                    if test(best[:i] + [0] + best[i + 1 :]):
                        improved = True
                    else:
                        lo, hi = 0, best[i] if i < len(best) else 0
                        while hi - lo > 1 and i < len(best):
                            mid = (lo + hi) // 2
                            if test(best[:i] + [mid] + best[i + 1 :]):
                                improved = True
                                hi = mid
                            else:
                                lo = mid
                i += 1
    except StopIteration:
        pass
    return best_case, best_v


def _worker(check, tier, seed, shard, shards, count, queue, stop, deadline, beat):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(HARNESS_RECURSION)
        # workers share no grammar cache: only C22 and C25 are about that
        tempfile.tempdir = os.environ["TMPDIR"] = tempfile.mkdtemp()
        check.setup()
        ctx = Ctx()
        evals = 0
        seen: set[bytes] = set()
        samples = []
        skipped = 0
        known: dict[str, int] = {}
        violation = None
        timed_out = False
        fixed = check.fixed(tier)[shard::shards]
        for i in range(-len(fixed), count):
            if stop.is_set():
                break
            if time.monotonic() > deadline:
                timed_out = True
                break
            src = None
            if i < 0:
                case = fixed[i]() if callable(fixed[i]) else fixed[i]
            else:
                digest = hashlib.sha256(f"{seed}:{check.id}:{shard}:{i}".encode()).digest()
                src = Source(rng=random.Random(digest))
                try:
                    case = check.gen(src, tier)
                except Overrun:
                    skipped += 1
                    continue
            beat(case)
            try:
                nontrivial = judge(check, case, ctx)
            except Violation as v:
                evals += 1
                if v.known:
                    known[v.known] = known.get(v.known, 0) + 1
                    continue
                beat(case, shrinking=True)
                small, sv = shrink(check, src.choices, case, v, tier) if src else (case, v)
                # what cannot be generated again from the choices is part of the case to replay
                small = getattr(sv, "case", None) or small
                violation = {"case": small, "message": str(sv), "original": case, "original_message": str(v)}
                stop.set()
                break
            evals += 1
            if nontrivial:
                key = case_key(case)
                if key not in seen:
                    seen.add(key)
                    if len(samples) < 3:
                        samples.append(check.show(case))
        beat(None)
        queue.put(
            {
                "shard": shard,
                "evals": evals,
                "seen": list(seen),
                "labels": dict(ctx.labels),
                "samples": samples,
                "skipped": skipped,
                "known": known,
                "violation": violation,
                "timed_out": timed_out,
            }
        )
    except BaseException:
        queue.put({"shard": shard, "error": traceback.format_exc()})


def _cpu(pid: int) -> float:
    try:
        with open(f"/proc/{pid}/stat") as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def load_known(prop: str) -> dict[str, str]:
    """Known findings of one property: key -> description (fixed entries suppress nothing)."""
    out = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text(encoding="utf-8").splitlines():
            line = line.strip()
            if line.startswith("known: "):
                fields = line[len("known: ") :].split(" ", 2)
                if fields[0] == f"property={prop}" and len(fields) == 3:
                    out[fields[1].removeprefix("key=")] = fields[2]
    return out


def run_check(check: Check, tier: str, seed: int, scratch: Path) -> int:
    sys.setrecursionlimit(HARNESS_RECURSION)
    t0 = time.monotonic()
    env_scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = int((check.quick_cases if tier == "quick" else check.thorough_cases) * env_scale)
    cap = 420 if tier == "quick" else 6 * 3600
    deadline = t0 + cap
    shards = min(check.shards, max(1, total))
    per = (total + shards - 1) // shards
    ctx = mp.get_context("fork")
    queue = ctx.Queue()
    stop = ctx.Event()
    procs = {}
    beats = {}
    for s in range(shards):
        path = scratch / f"beat-{s}"

        def beat(case, shrinking=False, path=path):
            # plain file: survives a kill -9 of a worker stuck inside a C extension
            with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
                json.dump({"case": case, "shrinking": shrinking}, f, default=str)

        if not getattr(check, "watch_hangs", True):
            beat = lambda case, shrinking=False: None  # noqa: E731
        p = ctx.Process(target=_worker, args=(check, tier, seed, s, shards, per, queue, stop, deadline, beat), daemon=False)
        p.start()
        procs[s] = p
        beats[s] = (path, 0.0, 0.0)

    results: dict[int, dict] = {}
    hang = None
    dead = []
    while len(results) < shards and hang is None:
        try:
            r = queue.get(timeout=2)
            results[r["shard"]] = r
            continue
        except Exception:
            pass
        for s, p in procs.items():
            if s in results:
                continue
            if not p.is_alive():
                try:
                    r = queue.get(timeout=3)
                    results[r["shard"]] = r
                except Exception:
                    dead.append((s, p.exitcode))
                    results[s] = {"shard": s, "error": f"worker {s} died with exit code {p.exitcode}", "died": True}
                continue
            path, mtime, cpu0 = beats[s]
            try:
                m = path.stat().st_mtime_ns
            except OSError:
                continue
            cpu = _cpu(p.pid)
            if m != mtime:
                beats[s] = (path, m, cpu)
                continue
            if cpu - cpu0 > CPU_HANG_S:
                data = json.loads(path.read_text(encoding="utf-8", errors="surrogatepass"))
                if data["case"] is not None and not data["shrinking"]:
                    hang = {"case": data["case"], "message": f"no result after {CPU_HANG_S} CPU seconds"}
                    break
    if hang is not None:
        for p in procs.values():
            if p.is_alive():
                p.kill()
    else:
        for s, p in procs.items():
            p.join(timeout=30)
            if p.is_alive():
                p.kill()
    # a worker that died inside the code under test (segfault, stack overflow) is a violation when
    # the case it was running kills a fresh process again
    errors = [r["error"] for r in results.values() if "error" in r]
    violation = None
    for s in sorted(results):
        if results[s].get("violation"):
            violation = results[s]["violation"]
            break
    if violation is None and hang is not None:
        violation = hang
    if violation is None and dead:
        for s, code in dead:
            path = beats[s][0]
            try:
                data = json.loads(path.read_text(encoding="utf-8", errors="surrogatepass"))
            except Exception:
                continue
            if data.get("case") and _kills(check, data["case"]):
                violation = {"case": data["case"], "message": f"the interpreter died (exit code {code})"}
                errors = [e for e in errors if "died with exit code" not in e]
                break

    good = [r for r in results.values() if "error" not in r]
    seen = set()
    labels: Counter[str] = Counter()
    known_hits: Counter[str] = Counter()
    samples = []
    for r in sorted(good, key=lambda r: r["shard"]):
        seen.update(r["seen"])
        labels.update(r["labels"])
        known_hits.update(r["known"])
        if len(samples) < 4:
            samples.extend(r["samples"][: 4 - len(samples)])
    evals = sum(r["evals"] for r in good)
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(seen),
        "rule": check.rule,
        "samples": samples,
        "classes": dict(sorted(labels.items(), key=lambda kv: (-kv[1], kv[0]))),
        "overrun_cases_skipped": sum(r["skipped"] for r in good),
        "planned_cases": per * shards,
        "time_cap_hit": any(r["timed_out"] for r in good),
        "known_finding_hits": dict(known_hits),
    }
    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{check.id}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False, default=str), encoding="utf-8", errors="backslashreplace")

    known = load_known(check.id)
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={check.id} {text}")
    if violation:
        REPLAYS.mkdir(parents=True, exist_ok=True)
        replay = REPLAYS / f"{check.id}-{case_key(violation['case']).hex()}.json"
        replay.write_text(json.dumps({"property": check.id, "seed": seed, "tier": tier, **violation}, indent=1, ensure_ascii=True, default=str))
        print(violation["message"])
        print(f"VIOLATION property={check.id} replay={replay}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 3
    unlisted = [k for k in known_hits if k not in known]
    if unlisted:
        print(f"internal error: unlisted known finding keys {unlisted}", file=sys.stderr)
        return 3
    print(
        f"{check.id}: held on {evals} cases ({len(seen)} distinct non-trivial), {coverage['overrun_cases_skipped']} skipped, "
        f"{evidence['wall_s']} s" + (" [time cap hit]" if coverage["time_cap_hit"] else "")
    )
    return 0


def _kills(check: Check, case: dict) -> bool:
    pid = os.fork()
    if pid == 0:
        try:
            check.setup()
            check.run(case, Ctx())
        except BaseException:
            pass
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def replay_case(check: Check, path: str) -> int:
    sys.setrecursionlimit(HARNESS_RECURSION)
    data = json.loads(Path(path).read_text())
    check.setup()
    ctx = Ctx()
    try:
        judge(check, data["case"], ctx)
    except Violation as v:
        if v.known and v.known in load_known(check.id):
            print(f"KNOWN-FINDING: property={check.id} {load_known(check.id)[v.known]}")
            return 0
        print(str(v))
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print(f"{check.id}: replayed case holds")
    return 0
