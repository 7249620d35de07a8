"""Bounded exhaustive exploration: enumerate a case space, run the real code on every case, judge it.

A *space* is a finite, deterministically ordered set of cases.  Every case is executed; nothing is sampled.
Spaces are split over forked worker processes by index, so the set of executed cases does not depend on the
number of workers.  Each case may record the canonical observations (states) it reached and the number of
API calls (transitions) it performed.
"""
import hashlib
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
SOFT_DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    """The case ran far longer than any in-domain execution does."""


class Ctx:
    """What a case reports about the executions it explored."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.validated = 0
        self.skipped = 0
        self.extra = {}

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.states.add(struct.unpack("<q", h)[0])

    def state_bytes(self, data):
        h = hashlib.blake2b(data, digest_size=8).digest()
        self.states.add(struct.unpack("<q", h)[0])

    def step(self, n=1):
        self.transitions += n

    def validate(self, n=1):
        """A trace of the reference model was replayed on, and agreed with, the implementation."""
        self.validated += n

    def skip(self, n=1):
        self.skipped += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def require(cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)


class Space:
    """One finite case space with the function that decides each case."""

    def __init__(self, name, cases, fn, bound="", timeout=90, workers=None, block=1):
        self.name, self.cases, self.fn = name, cases, fn
        self.bound, self.timeout, self.workers, self.block = bound, timeout, workers, block


class Check:
    """A property check: `spaces(tier)` lists the case spaces that decide it."""

    id = None
    technique = ""
    level_note = ""
    assumptions = []
    preload = ()  # modules imported in the parent before forking

    def spaces(self, tier):
        raise NotImplementedError


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case, ctx):
    """Returns None, or a message when the case violates the property."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, space.timeout)
    try:
        space.fn(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "no result after %d s (in-domain runs take far less)" % space.timeout
    except Exception as e:  # the code under test raised on an in-domain input
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _take(flag, lock, block):
    """Next unclaimed block of case indices (dynamic load balancing; every index is claimed exactly once)."""
    token = os.read(lock[0], 1)
    nxt = struct.unpack("<q", flag[8:16])[0]
    flag[8:16] = struct.pack("<q", nxt + block)
    os.write(lock[1], token)
    return nxt


def _worker(space, k, n, deadline, flag, lock, cur, wfd):
    ctx = Ctx()
    out = {"violation": None, "capped": False, "samples": []}
    t0 = time.time()
    done = 0
    first = {}
    lo = _take(flag, lock, space.block)
    for i, case in enumerate(space.cases()):
        if i < lo:
            continue
        if i >= lo + space.block:
            lo = _take(flag, lock, space.block)
            if i < lo:
                continue
        if flag[0]:
            out["stopped"] = True
            break
        if time.time() > deadline:
            out["capped"] = True
            break
        cur[8 * k : 8 * k + 8] = struct.pack("<q", i)
        ctx.executions += 1
        msg = run_case(space, case, ctx)
        if msg is not None:
            out["violation"] = (i, case, msg)
            flag[0] = 1
            break
        done += 1
        if len(first) < 2:
            first[i] = case
    out["samples"] = sorted(first.items())
    out.update(states=ctx.states, transitions=ctx.transitions, executions=ctx.executions,
               validated=ctx.validated, skipped=ctx.skipped, extra=ctx.extra, wall=time.time() - t0)
    cur[8 * k : 8 * k + 8] = struct.pack("<q", -1)
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(out, f)


def run_space(space, deadline):
    n = space.workers or WORKERS
    flag = mmap.mmap(-1, 16)
    lock = os.pipe()
    os.write(lock[1], b"x")
    cur = mmap.mmap(-1, 8 * n)
    cur[:] = b"\xff" * (8 * n)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, rr in procs:
                    os.close(rr)
                _worker(space, k, n, deadline, flag, lock, cur, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    results, broken = [], []

    def kill_all():
        for pid, _ in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass

    over = threading.Event()

    def watch():
        """Ends workers stuck in compiled code (which no alarm interrupts) and everything past the deadline."""
        seen = {}
        while not over.wait(1.0):
            now = time.time()
            if now > deadline + 60:
                return kill_all()
            for k, (pid, _) in enumerate(procs):
                i = struct.unpack("<q", cur[8 * k : 8 * k + 8])[0]
                if seen.get(k, (None,))[0] != i:
                    seen[k] = (i, now)
                elif i >= 0 and now - seen[k][1] > space.timeout + 20:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass

    watchdog = threading.Thread(target=watch, daemon=True)
    watchdog.start()
    for k, (pid, r) in enumerate(procs):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status == 0 and data:
            results.append(pickle.loads(data))
        else:
            broken.append((k, status, struct.unpack("<q", cur[8 * k : 8 * k + 8])[0]))
            flag[0] = 1
    over.set()
    watchdog.join()
    os.close(lock[0])
    os.close(lock[1])
    return results, broken


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line[len("finding: property=%s " % pid) :])
    return out


def execute(check, tier):
    """Run every space of the check; returns the process exit code."""
    t0 = time.time()
    deadline = t0 + SOFT_DEADLINE.get(tier, 780.0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    states, samples, per_space = set(), [], []
    total = dict(transitions=0, executions=0, validated=0, skipped=0)
    violation, capped, extra = None, False, {}
    try:
        for m in check.preload:
            __import__(m)
        spaces = list(check.spaces(tier))
    except Exception as e:
        violation = (None, None, 0, "the package cannot be loaded or prepared: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
        spaces = []
    for space in spaces:
        s0 = time.time()
        results, broken = run_space(space, deadline)
        st = set()
        agg = dict(transitions=0, executions=0, validated=0, skipped=0)
        found = []
        cap = False
        for r in results:
            st |= r["states"]
            for k in agg:
                agg[k] += r[k]
            for k, v in r["extra"].items():
                extra[k] = extra.get(k, 0) + v
            cap |= r["capped"]
            if r["violation"]:
                found.append(r["violation"])
            for i, c in r["samples"]:
                if i < 2:
                    samples.append({"space": space.name, "index": i, "case": jsonable(c)})
        for k, status, idx in broken:
            case = None
            for i, c in enumerate(space.cases()):
                if i == idx:
                    case = c
                    break
            found.append((idx, case, "the process running this case died (wait status %d)" % status))
        states |= st
        for k in total:
            total[k] += agg[k]
        capped |= cap
        per_space.append({"space": space.name, "bound": space.bound, "cases": agg["executions"], "states": len(st),
                          "transitions": agg["transitions"], "traces_validated": agg["validated"],
                          "rounding_sensitive_skipped": agg["skipped"],
                          "exhaustive": not cap and not found, "wall_s": round(time.time() - s0, 2)})
        print("%s %s: cases=%d states=%d transitions=%d validated=%d skipped=%d%s %.1fs" % (
            check.id, space.name, agg["executions"], len(st), agg["transitions"], agg["validated"], agg["skipped"],
            " CAPPED" if cap else "", time.time() - s0), flush=True)
        if found:
            i, case, msg = min(found, key=lambda v: v[0])
            violation = (space.name, case, i, msg)
            break
    findings = known_findings(check.id)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (check.id, f))
    replay = None
    if violation:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(ROOT, "replays", "%s-%s.json" % (check.id, tier))
        with open(replay, "w") as f:
            json.dump({"property": check.id, "tier": tier, "space": violation[0], "index": violation[2],
                       "case": jsonable(violation[1]), "message": violation[3],
                       "replay_cmd": "/verif/run.sh replay %s" % replay}, f, indent=1)
        print(violation[3])
        print("VIOLATION property=%s replay=%s" % (check.id, replay))
    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": total["transitions"],
            "executions": total["executions"],
            "traces_validated_against_impl": total["validated"],
            "rounding_sensitive_skipped": total["skipped"],
            "exhaustive": not capped and not violation,
            "spaces": per_space,
            "samples": samples[:24],
            **({"counters": extra} if extra else {}),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"space": violation[0], "message": violation[3][:2000], "replay": replay}] if violation else [],
        "assumptions": list(check.assumptions),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", "%s.json" % check.id), "w") as f:
        json.dump(evidence, f, indent=1)
    return 1 if violation else 0
