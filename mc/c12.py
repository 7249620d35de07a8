"""C12: parallel ensembles equal serial ones under every worker schedule."""
import itertools
import multiprocessing
import time

import numpy as np

from mc import core, pools, signals as G

SIGS = {"short": lambda: np.array([0.0, 2, -1, 3, 1, 1, -2, 0]), "tones": lambda: G.make("two_tones", 20), "walk": lambda: np.round(9 * G.make("walk", 16)).astype("int16")}


def build(cls, trials, parallel, **kw):
    import PyEMD

    e = getattr(PyEMD, cls)(trials=trials, parallel=parallel, MAX_ITERATION=12, **kw)
    e.noise_seed(11)
    return e


def observe(e, cls, S, T, k, calls=1):
    """Everything a user sees: results of consecutive calls, ensemble statistics, and the random stream afterwards."""
    obs = []
    for _ in range(calls):
        obs.append(np.array(e(S, T, k)))
        imfs, res = e.get_imfs_and_residue()
        obs += [np.array(imfs), np.array(res)]
        if cls == "EEMD":
            obs += [np.array(e.ensemble_count()), np.array(e.ensemble_std())] + [np.array(e.all_imfs[i]) for i in sorted(e.all_imfs)]
    obs.append(np.array(e.generate_noise(1.0, 6)))
    return obs


SERIAL = {}


def serial(cls, sig, trials, T, k, calls, kw):
    key = (cls, sig, trials, T, k, calls, tuple(sorted(kw.items())))
    if key not in SERIAL:
        S = SIGS[sig]()
        SERIAL[key] = observe(build(cls, trials, False, **kw), cls, S, axis(T, len(S)), k, calls)
    return SERIAL[key]


def axis(T, n):
    return None if T is None else G.SHORT_T[T](n)


def same(ctx, got, want, what):
    ctx.require(len(got) == len(want), lambda: "%s: %d observations, serial run has %d" % (what, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        ok = a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= 1e-9 * max(1.0, np.max(np.abs(b))))
        ctx.require(ok, lambda: "%s: observation %d differs from the serial run" % (what, i))


def eemd_cases(trials, procs):
    for t, p in itertools.product(trials, procs):
        chunk = max(1, -(-t // (4 * p)))
        for a in pools.assignments(-(-t // chunk), p):
            for sep in (False, True):
                yield {"trials": t, "processes": p, "assign": list(a), "separate": sep}


def eemd(case, ctx):
    kw = {"separate_trends": case["separate"], "noise_width": 0.2}
    a = case["assign"]
    for sig, T, k, calls in (("short", None, -1, 1), ("tones", "uneven", 2, 2), ("walk", None, 1, 1)):
        if T:
            kw = dict(kw, extrema_detection="parabol")
        S = SIGS[sig]()
        want = serial("EEMD", sig, case["trials"], T, k, calls, kw)
        with pools.controlled(lambda pn, b, n: a[b % len(a)], lambda pn, n: range(n)) as ctl:
            e = build("EEMD", case["trials"], True, processes=case["processes"], **kw)
            got = observe(e, "EEMD", S, axis(T, len(S)), k, calls)
            finish(ctx, ctl, "EEMD %s" % case)
        ctx.step(case["trials"] * calls)
        same(ctx, got, want, "EEMD %s signal %s" % (case, sig))
        ctx.validate()
    ctx.state("EEMD", case["trials"], case["processes"], tuple(a), case["separate"])


def finish(ctx, ctl, what):
    for p in ctl.pools:
        ctx.require(p.state != "run", lambda: "%s: worker pool %d was left open" % (what, p.number))
    ctx.count("pools", len(ctl.pools))


def ceemdan_cases(trials, procs, full):
    for t, p in itertools.product(trials, procs):
        chunk = max(1, -(-t // (4 * p)))
        amap = list(pools.assignments(-(-t // chunk), p))
        aun = list(pools.assignments(t, p))
        perms = list(itertools.permutations(range(t)))
        if t <= full:
            combos = itertools.product(amap, aun, perms)
        else:  # every assignment with a reversed delivery, and every delivery with a round-robin assignment
            rr = [i % p for i in range(t)]
            combos = itertools.chain(((a, b, perms[-1]) for a in amap for b in aun), ((amap[-1], rr, q) for q in perms))
        for a, b, q in combos:
            yield {"trials": t, "processes": p, "noise_assign": list(a), "assign": list(b), "arrive": list(q)}


def ceemdan(case, ctx):
    a, b, q = case["noise_assign"], case["assign"], case["arrive"]

    def assign(pn, batch, n):
        seq = a if pn % 2 == 0 else b
        return seq[batch % len(seq)]

    def arrive(pn, n):
        return q if n == len(q) else range(n)

    for sig, T, k, calls, kw in (("short", None, 2, 1, {}), ("tones", None, -1, 1, {"epsilon": 0.1, "beta_progress": False}),):
        S = SIGS[sig]()
        want = serial("CEEMDAN", sig, case["trials"], T, k, calls, kw)
        with pools.controlled(assign, arrive) as ctl:
            e = build("CEEMDAN", case["trials"], True, processes=case["processes"], **kw)
            got = observe(e, "CEEMDAN", S, axis(T, len(S)), k, calls)
            finish(ctx, ctl, "CEEMDAN %s" % case)
        ctx.step(2 * case["trials"])
        same(ctx, got, want, "CEEMDAN %s signal %s" % (case, sig))
        ctx.validate()
    ctx.state("CEEMDAN", case["trials"], case["processes"], tuple(a), tuple(b), tuple(q))


def real_cases(trials, procs):
    for cls, t, p in itertools.product(("EEMD", "CEEMDAN"), trials, procs):
        for sig in SIGS:
            yield {"class": cls, "trials": t, "processes": p, "signal": sig}


def real(case, ctx):
    """The operating system's scheduler, real multiprocessing pools, several calls on one object; nothing is left running."""
    import io
    import contextlib

    cls = case["class"]
    kw = {"noise_width": 0.3, "separate_trends": case["trials"] % 2 == 1} if cls == "EEMD" else {"epsilon": 0.1}
    S = SIGS[case["signal"]]()
    want = serial(cls, case["signal"], case["trials"], None, 2, 2, kw)
    if case["processes"] is not None:
        kw = dict(kw, processes=case["processes"])
    before = len(multiprocessing.active_children())
    with contextlib.redirect_stderr(io.StringIO()):
        e = build(cls, case["trials"], True, **kw)
        got = observe(e, cls, S, None, 2, 2)
    ctx.step(2 * case["trials"])
    same(ctx, got, want, "real pool %s" % case)
    t0 = time.time()
    while len(multiprocessing.active_children()) > before and time.time() - t0 < 20:
        time.sleep(0.02)
    ctx.require(len(multiprocessing.active_children()) <= before, lambda: "%s: worker processes still alive 20 s after the calls" % case)
    ctx.validate()
    ctx.state(sorted(map(str, case.items())))


def off_cases():
    for cls, p in itertools.product(("EEMD", "CEEMDAN"), (None, 1, 4)):
        yield {"class": cls, "processes": p}


def off(case, ctx):
    """With parallel=False no pool is ever created, and toggling the flag on a live object works."""
    cls, p = case["class"], case["processes"]
    kw = {} if p is None else {"processes": p}
    S = SIGS["short"]()
    with pools.controlled(lambda pn, b, n: b, lambda pn, n: range(n - 1, -1, -1)) as ctl:
        e = build(cls, 3, False, **kw)
        e(S)
        ctx.require(not ctl.pools, lambda: "%s: a pool was created although parallel is off" % case)
        ctx.step()
        e.parallel = True
        e.processes = 2
        e.noise_seed(11)
        got = observe(e, cls, S, None, -1)
        same(ctx, got, serial(cls, "short", 3, None, -1, 1, {}), "%s switched to parallel" % case)
        finish(ctx, ctl, str(case))
        e.parallel = False
        e.noise_seed(11)
        got = observe(e, cls, S, None, -1)
        same(ctx, got, serial(cls, "short", 3, None, -1, 1, {}), "%s switched back to serial" % case)
        ctx.step(2)
    ctx.validate()
    ctx.state(cls, p)


class C12(core.Check):
    id = "C12"
    preload = ("PyEMD",)
    technique = "stateless exploration of worker schedules on the real code: a controlled process pool (real forked workers, real pickling) enumerates every batch-to-worker assignment and every delivery order; replayed against real multiprocessing pools"
    level_note = "EEMD: every assignment of batches to 1-3 workers for 1-5 (7 thorough) trials. CEEMDAN: full product of both pools' assignments and all delivery orders for up to 3 trials, 4 (5) trials with one factor varied at a time. Real pools over a trials x processes grid with leak detection."
    assumptions = ["workers are forked processes that share nothing but the task messages", "summation order may change results by rounding only (1e-9 relative)"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("parallel-off", off_cases, off, "flag off, and toggled on a live object"),
            core.Space("eemd-schedules", lambda: eemd_cases((1, 2, 3, 4, 5) if q else range(1, 8), (1, 2, 3) if q else (1, 2, 3, 4)), eemd, "every assignment of batches to workers"),
            core.Space("eemd-large-batches", lambda: eemd_cases((9, 10, 13), (1, 2)), eemd, "batches of more than one trial") if not q else
            core.Space("eemd-large-batches", lambda: eemd_cases((9,), (1, 2)), eemd, "batches of more than one trial"),
            core.Space("ceemdan-schedules", lambda: ceemdan_cases((1, 2, 3, 4) if q else (1, 2, 3, 4, 5), (1, 2, 3), 3), ceemdan, "every assignment and every delivery order"),
            core.Space("real-pools", lambda: real_cases((1, 2, 3, 5, 9, 33) if q else list(range(1, 14)) + [33, 70], (1, 2, 3, None) if q else (1, 2, 3, 4, 6, None)), real, "trials x processes x signals, two calls each", timeout=200, workers=4),
        ]


CHECK = C12()
