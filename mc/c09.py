"""C09: EEMD is the exact ensemble statistics of its noisy trials."""
import contextlib
import io
import itertools

import numpy as np

from mc import core, fakes, signals as G


def aggregate(trials):
    """trials: list of (rows, trend or None).  Row k -> all trial rows of that order, trends last."""
    out = []
    depth = max(len(r) for r, _ in trials)
    for k in range(depth):
        out.append(np.array([r[k] for r, _ in trials if len(r) > k]))
    tr = [t for _, t in trials if t is not None]
    if tr:
        out.append(np.array(tr))
    return out


def judge(ctx, e, S, result, trials, what):
    want = aggregate(trials)
    scale = max(1.0, max((np.max(np.abs(w)) for w in want), default=1.0))
    tol = 1e-10 * scale
    result = np.asarray(result)
    ctx.require(len(result) == len(want), lambda: "%s: %d rows, the trials have %d" % (what, len(result), len(want)))
    cnt = list(e.ensemble_count())
    ctx.require(cnt == [len(w) for w in want], lambda: "%s: ensemble_count %s, expected %s" % (what, cnt, [len(w) for w in want]))
    std, mean, ai = e.ensemble_std(), e.ensemble_mean(), e.all_imfs
    ctx.require(sorted(ai.keys()) == list(range(len(want))), lambda: "%s: all_imfs is keyed by %s" % (what, sorted(ai.keys())))
    for k, w in enumerate(want):
        ctx.require(result[k].shape == S.shape and np.max(np.abs(result[k] - w.mean(axis=0))) <= tol, lambda: "%s: row %d is not the mean over the trials that have it" % (what, k))
        ctx.require(np.max(np.abs(np.asarray(mean)[k] - w.mean(axis=0))) <= tol, lambda: "%s: ensemble_mean row %d" % (what, k))
        ctx.require(np.max(np.abs(np.asarray(std)[k] - w.std(axis=0))) <= tol, lambda: "%s: ensemble_std row %d" % (what, k))
        a = np.asarray(ai[k])
        ctx.require(a.shape == w.shape and np.max(np.abs(a - w)) <= tol, lambda: "%s: all_imfs[%d] are not the trials' rows in trial order" % (what, k))
    imfs, res = e.get_imfs_and_residue()
    ctx.require(np.array_equal(imfs, result), lambda: "%s: accessor rows differ from the result" % what)
    ctx.require(np.max(np.abs(np.asarray(res) - (S - np.sum(result, axis=0)))) <= 1e-9 * scale, lambda: "%s: residue is not the signal minus the rows" % what)
    ctx.validate()


def stub_cases(max_trials, max_rows):
    for t in range(1, max_trials + 1):
        for counts in itertools.product(range(max_rows + 1), repeat=t):
            if max(counts) == 0:
                continue
            for sep in (False, True):
                yield {"counts": list(counts), "separate": sep}


def order_cases(depths):
    for d in depths:
        for counts in ([d], [d, 1], [1, d], [d - 1, d], [d, d, 2], [2, d // 2, d]):
            for sep in (False, True):
                yield {"counts": counts, "separate": sep}


def crowd_cases(sizes):
    for t, sep in itertools.product(sizes, (False, True)):
        yield {"counts": [1 + (i * 7) % 4 for i in range(t)], "separate": sep}


def stub(case, ctx):
    """Every pattern of component counts over the trials, with a scripted decomposer."""
    from PyEMD import EEMD

    N = 7
    t = len(case["counts"])
    noise = [G.lcg(N, 50 + i) for i in range(t)]
    for T, k, width, progress, dtype in (
        (None, -1, 0.25, False, "float64"), (np.linspace(2, 9, N), 3, 1.5, False, "float64"), (np.arange(N) * 2, 1, 0.0, t == 1, "float64"),
        (np.cumsum([0.25, 0.5, 1, 0.125, 2, 0.75, 0.5]) - 1, -1, 0.5, False, "int16"), (None, 2, 0.5, False, "int8"), (1e9 + np.arange(N) / 8, -1, 0.5, False, "float32"),
        (np.array([0, 1, 3, 4, 9, 10, 12]), 10, 0.125, False, "float64"), (np.array([3, 4, 6, 7, 12, 13, 20], "float32"), 17, 0.125, False, "float64"), (None, 300, 0.5, False, "uint8"),
    ):
        S = (np.array([0.0, 2, -1, 3, 1, -2, 4]) + 2 * (dtype == "uint8")).astype(dtype)
        dec = fakes.ScriptedEMD(case["counts"])
        e = EEMD(trials=t, noise_width=width, ext_EMD=dec, parallel=False, separate_trends=case["separate"])
        fakes.plant(e, fakes.ScriptedRandom(noise))
        with contextlib.redirect_stderr(io.StringIO()):
            out = e.eemd(S, T, k, progress=progress) if t % 2 else e(S, T=T, max_imf=np.int64(k))
        ctx.step(t)
        what = "stub %s %s T=%s max_imf=%d width=%g" % (case, dtype, T is not None, k, width)
        ctx.require(len(dec.calls) == t, lambda: "%s: %d decompositions for %d trials" % (what, len(dec.calls), t))
        for i, (s, tt, kk) in enumerate(dec.calls):
            ctx.require(np.max(np.abs(s - S - width * 6.0 * noise[i])) <= 1e-9, lambda: "%s: trial %d did not decompose the signal plus its noise" % (what, i))
            ctx.require((tt is None and T is None) or np.array_equal(tt, np.arange(N) if T is None else T), lambda: "%s: trial %d got time axis %s" % (what, i, tt))
            ctx.require(kk == k, lambda: "%s: trial %d got limit %s" % (what, i, kk))
        trials = []
        for r in dec.rows:
            if case["separate"]:
                trials.append((r[:-1], r[-1]) if len(r) else (r, np.zeros(N)))
            else:
                trials.append((r, None))
        judge(ctx, e, S, out, trials, what)
    ctx.state(case["counts"], case["separate"])


BANK = {
    "zero": lambda n: np.zeros(n), "alt": lambda n: np.where(np.arange(n) % 2, 1.0, -1.0), "rand": lambda n: G.lcg(n, 9), "wave": lambda n: 0.7 * np.sin(np.arange(n) * 1.1 + 0.4),
    "spike": lambda n: np.eye(n)[n // 2] * 2.0, "rand2": lambda n: 3 * G.lcg(n, 31),
}
CFG = (dict(MAX_ITERATION=40), dict(extrema_detection="parabol", FIXE=2), dict(spline_kind="akima", nbsym=1, FIXE_H=1, MAX_ITERATION=30))


def noise_cases(sigs, bank, trials, cfgs):
    for s in sigs:
        for t in trials:
            for words in itertools.product(bank, repeat=t):
                for c in cfgs:
                    yield {"signal": s, "noise": list(words), "cfg": c}


def sig(s):
    if isinstance(s, str):
        return G.make(s.split("/")[0], int(s.split("/")[1]))
    return np.array(s, float)


def noises(case, ctx):
    """Every assignment of noise words to trials, real decomposer, against fresh per-trial decompositions."""
    from PyEMD import EEMD, EMD

    S = sig(case["signal"])
    n, cfg = len(S), CFG[case["cfg"]]
    rows = [BANK[w](n) for w in case["noise"]]
    for sep, k, T, width in ((False, -1, None, 0.3), (True, -1, None, 0.3), (False, 2, G.SHORT_T["uneven"](n), 0.05), (True, 1, np.arange(n) + 4.0, 0.1)):
        rec = fakes.RecordingEMD(EMD(**cfg))
        e = EEMD(trials=len(rows), noise_width=width, ext_EMD=rec, parallel=False, separate_trends=sep)
        fakes.plant(e, fakes.ScriptedRandom(rows))
        out = e.eemd(S, T, k)
        ctx.step(len(rows))
        trials = []
        ctx.require(len(rec.calls) == len(rows), lambda: "%s: %d decompositions for %d trials" % (case, len(rec.calls), len(rows)))
        for r, (s, tt, kk) in zip(rows, rec.calls):
            ctx.require(np.max(np.abs(s - S - width * (S.max() - S.min()) * r)) <= 1e-9 * max(1, np.max(np.abs(S))), lambda: "%s: a trial did not decompose the signal plus its noise" % case)
            d = EMD(**cfg)
            o = d.emd(s, np.arange(n) if T is None else T, k)
            if sep:
                trials.append(tuple(np.array(v) for v in d.get_imfs_and_trend()))
            else:
                trials.append((o, None))
        if sum(len(r) for r, _ in trials) == 0 and not sep:
            continue
        judge(ctx, e, S, out, trials, "%s separate=%s max_imf=%d" % (case, sep, k))
    ctx.state(sorted(map(str, case.items())), np.shape(out))


def many_cases(trials):
    for t, s, sep, kind in itertools.product(trials, ("two_tones/24", "noisy_ramp/16", "walk/60", "steps/200"), (False, True), ("normal", "uniform")):
        yield {"trials": t, "signal": s, "separate": sep, "kind": kind}


def many(case, ctx):
    """Larger ensembles with the object's own noise, against fresh decompositions of what each trial was given."""
    from PyEMD import EEMD, EMD

    S, t, sep = sig(case["signal"]), case["trials"], case["separate"]
    cfg = dict(FIXE=2)
    rec = fakes.RecordingEMD(EMD(**cfg))
    e = EEMD(trials=t, noise_width=0.2, ext_EMD=rec, parallel=False, separate_trends=sep, noise_kind=case["kind"])
    e.noise_seed(3)
    out = e.eemd(S, None, 4)
    ctx.step(t)
    ctx.require(len(rec.calls) == t, lambda: "%s: %d decompositions for %d trials" % (case, len(rec.calls), t))
    noise = np.array([s - S for s, _, _ in rec.calls])
    ctx.require(np.max(np.abs(noise)) > 0 and len({r.tobytes() for r in noise}) == t, lambda: "%s: trials share their noise" % case)
    trials = []
    for s, _, _ in rec.calls:
        d = EMD(**cfg)
        o = d.emd(s, np.arange(len(S)), 4)
        trials.append(tuple(np.array(v) for v in d.get_imfs_and_trend()) if sep else (o, None))
    judge(ctx, e, S, out, trials, str(case))
    ctx.state(str(case))


PATTERNS = ([1], [2], [2, 2], [1, 3], [2, 1, 2], [12, 2])


def reuse_cases(depth):
    for seq in itertools.product(range(len(PATTERNS)), repeat=depth):
        for sep in itertools.product((False, True), repeat=depth):
            yield {"patterns": list(seq), "separate": list(sep)}


def reuse(case, ctx):
    """One object used again and again, with its trials, trend separation, noise width and decomposer changed in between."""
    from PyEMD import EEMD

    e = EEMD(trials=1, parallel=False)
    for step, (p, sep) in enumerate(zip(case["patterns"], case["separate"])):
        counts = PATTERNS[p]
        S = G.lcg(7, 200 + step) * (step + 1)
        noise = [G.lcg(7, 50 + 10 * step + i) for i in range(len(counts))]
        dec = fakes.ScriptedEMD(counts)
        dec._make = lambda i, n, N, make=dec._make, step=step: make(i, n, N) * (1 + step) - step
        e.EMD, e.trials, e.noise_width, e.separate_trends = dec, len(counts), 0.1 * (1 + step), sep
        fakes.plant(e, fakes.ScriptedRandom(noise))
        out = np.array(e(S, None, 3 + step))
        ctx.step(len(counts))
        what = "%s run %d" % (case, step)
        ctx.require(len(dec.calls) == len(counts), lambda: "%s: %d decompositions for %d trials" % (what, len(dec.calls), len(counts)))
        for i, (s, _, kk) in enumerate(dec.calls):
            ctx.require(kk == 3 + step and np.max(np.abs(s - S - e.noise_width * np.ptp(S) * noise[i])) <= 1e-9, lambda: "%s: trial %d did not decompose the signal plus its noise under the limit" % (what, i))
        judge(ctx, e, S, out, [((r[:-1], r[-1]) if sep else (r, None)) for r in dec.rows], what)
    ctx.state(str(case))


def zero_cases(words, ns):
    for w in words:
        yield {"signal": list(w)}
    for n in ns:
        for f in G.FAMILIES:
            if f != "zero":
                yield {"signal": "%s/%d" % (f, n)}


def zero_width(case, ctx):
    from PyEMD import EEMD, EMD

    S = sig(case["signal"])
    if not S.any():
        return
    for cfg in CFG:
        for trials, k, sep in ((1, -1, False), (3, -1, False), (2, 1, False), (3, 2, True)):
            d = EMD(**cfg)
            want = d.emd(S, None, k)
            if sep:
                a, b = d.get_imfs_and_trend()
                want = np.vstack((a, b))
            for kind in ("normal", "uniform"):
                e = EEMD(trials=trials, noise_width=0.0, parallel=False, separate_trends=sep, noise_kind=kind, **cfg)
                out = e.eemd(S, None, k)
                ctx.step(trials)
                ok = out.shape == want.shape and np.max(np.abs(out - want)) <= 1e-9 * max(1, np.max(np.abs(want)))
                ctx.require(ok, lambda: "%s trials=%d max_imf=%d separate=%s: zero noise does not give the plain EMD" % (case, trials, k, sep))
                ctx.require(np.max(np.abs(e.ensemble_std())) <= 1e-9 * max(1, np.max(np.abs(want))), lambda: "%s: identical trials have a non-zero deviation" % case)
                ctx.validate()
        ctx.state(str(case["signal"]), out.shape)


class C09(core.Check):
    id = "C09"
    preload = ("PyEMD",)
    technique = "exhaustive enumeration of the environment: every pattern of per-trial component counts (scripted decomposer) and every assignment of noise words to trials (scripted noise source), on the real ensemble code"
    level_note = "All component-count patterns for up to 4 trials x 0..3 rows (5 x 0..4 thorough), all noise assignments of 1-3 (4) trials from 5 (6) words over several signals and 3 configurations, with and without separated trends."
    assumptions = ["at least one trial has a component", "noise enters through the object's random source"]

    def spaces(self, tier):
        q = tier == "quick"
        sigs = [[0, 1, -1, 2, 0], [0, 2, -1, 3, 1, 1, -2, 0], "two_tones/24", "noisy_ramp/16", "steps/12", "ramp/9", "walk/30"]
        bank = list(BANK)[: 5 if q else 6]
        W = list(G.tuples((-1, 0, 2), 4)) + ([] if q else list(G.tuples((-1, 0, 2), 6)))
        return [
            core.Space("count-patterns", lambda: stub_cases(5 if q else 6, 3 if q else 4), stub, "every pattern of component counts over the trials", block=4),
            core.Space("orders", lambda: order_cases((8, 10, 11, 12, 17, 33) if q else (8, 9, 10, 11, 12, 17, 33, 65, 101, 130, 260)), stub, "decompositions with many components"),
            core.Space("noise-words", lambda: noise_cases(sigs, bank, (1, 2, 3) if q else (1, 2, 3, 4), range(len(CFG))), noises, "every assignment of noise words to trials"),
            core.Space("crowds", lambda: crowd_cases((129, 257, 513, 1025) if q else (129, 257, 513, 1025, 2049, 4097)), stub, "hundreds of trials with a scripted decomposer", timeout=120),
            core.Space("many", lambda: many_cases((6, 17, 40, 101) if q else (6, 10, 17, 33, 40, 70, 101, 150, 260)), many, "larger ensembles with drawn noise", timeout=120),
            core.Space("reuse", lambda: reuse_cases(2 if q else 3), reuse, "every sequence of runs of one object with changed settings", block=4),
            core.Space("zero-width", lambda: zero_cases(W, (5, 12, 40) if q else (5, 8, 12, 20, 40, 120)), zero_width, "words and families without noise"),
        ]


CHECK = C09()
