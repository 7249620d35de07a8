"""C11: CEEMDAN is complete and follows the adaptive-noise recursion."""
import contextlib
import io
import itertools

import numpy as np

from mc import core, fakes, signals as G

BANK = {
    "rand": lambda n: G.lcg(n, 9), "alt": lambda n: np.where(np.arange(n) % 2, 1.0, -1.0) * (1 + 0.1 * np.arange(n)), "wave": lambda n: 0.7 * np.sin(np.arange(n) * 1.1 + 0.4),
    "ramp": lambda n: np.linspace(-1, 2, n), "spike": lambda n: np.eye(n)[n // 2] * 2.0, "rand2": lambda n: 3 * G.lcg(n, 31),
}
OWN = ("epsilon", "noise_scale", "beta_progress")


class Model:
    """Reference recursion; `jiggle` perturbs every decomposed array at rounding level."""

    def __init__(self, kw, jiggle=0):
        self.kw, self.jiggle, self.tick = kw, jiggle, 0
        self.margin = np.inf

    def emd(self, x, T, k):
        from PyEMD import EMD

        if self.jiggle:
            self.tick += 1
            x = x + 2e-15 * (np.abs(x) + np.max(np.abs(x))) * G.lcg(len(x), self.jiggle * 7919 + self.tick)
        return EMD(**{a: b for a, b in self.kw.items() if a not in OWN}).emd(x, T, max_imf=k)

    def run(self, S, T, units, max_imf):
        kw = self.kw
        eps, range_thr, power_thr = kw.get("epsilon", 0.005), kw.get("range_thr", 0.01), kw.get("total_power_thr", 0.05)
        S = np.asarray(S, float)
        std = np.std(S)
        std = std if std else 1.0
        s = S / std
        n = len(s)
        modes = [self.emd(kw.get("noise_scale", 1.0) * u, None, -1) for u in units]
        if kw.get("beta_progress", True):
            modes = [m / np.std(m[0]) for m in modes]
        first = np.zeros(n)
        for m in modes:
            rows = self.emd(s + eps * m[0], np.arange(n, dtype=float) if T is None else T, 1)
            if len(rows):
                first = first + rows[0]
        comps = [first / len(modes)]
        rest = s - comps[0]
        for _ in range(100):
            if 0 < max_imf <= len(comps):
                break
            left = s - np.sum(comps, axis=0)
            rng, pw = np.ptp(left), np.sum(np.abs(left))
            self.margin = min(self.margin, abs(rng / range_thr - 1), abs(pw / power_thr - 1))
            if len(self.emd(left, None, 1)) == 1 or rng < range_thr or pw < power_thr:
                break
            beta = eps * np.std(rest)
            mean = np.zeros(n)
            for m in modes:
                x = rest + (beta * m[len(comps)] if len(m) > len(comps) else 0)
                mean = mean + self.emd(x, T, 1)[-1]
            mean = mean / len(modes)
            comps.append(rest - mean)
            rest = mean
        comps.append(s - np.sum(comps, axis=0))
        return np.array(comps) * std


def agree(a, b, tol):
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol


def complete(ctx, e, S, out, k, what):
    S = np.asarray(S, float)
    out = np.asarray(out)
    big = max(1e-300, np.max(np.abs(S)), np.max(np.abs(out)))
    ctx.require(out.ndim == 2 and out.shape[1] == len(S) and len(out) >= 2, lambda: "%s: result has shape %s" % (what, out.shape))
    ctx.require(np.all(np.isfinite(out)), lambda: "%s: non-finite values" % what)
    err = np.max(np.abs(out.sum(axis=0) - S))
    ctx.require(err <= 1e-10 * big, lambda: "%s: rows do not add up to the signal, error %g" % (what, err))
    if k > 0:
        ctx.require(len(out) <= k + 1, lambda: "%s: %d rows for a limit of %d components" % (what, len(out), k))
    imfs, res = e.get_imfs_and_residue()
    ctx.require(np.array_equal(imfs, out), lambda: "%s: accessor rows are not the result" % what)
    ctx.require(np.shape(res) == S.shape and np.max(np.abs(res - (S - out.sum(axis=0)))) <= 1e-9 * big, lambda: "%s: residue is not what is left over" % what)


def recursion(ctx, S, T, units, kw, k, what):
    from PyEMD import CEEMDAN

    e = CEEMDAN(trials=len(units), parallel=False, **kw)
    fakes.plant(e, fakes.ScriptedRandom(units))
    out = e.ceemdan(S, T, k)
    ctx.step(len(units) * (len(out) + 1))
    complete(ctx, e, S, out, k, what)
    ref = Model(kw)
    want = ref.run(S, T, units, k)
    tol = 1e-7 * max(1e-300, np.max(np.abs(S)), np.max(np.abs(want)))
    if agree(out, want, tol):
        ctx.validate()
        ctx.state(what, out.shape, np.round(out, 6).tobytes())
        return
    if ref.margin < 1e-6 or any(not agree(Model(kw, j).run(S, T, units, k), want, tol / 10) for j in range(1, 13)):
        ctx.skip()
        return
    if out.shape != want.shape:
        ctx.fail("%s: %d rows, the recursion gives %d" % (what, len(out), len(want)))
    ctx.fail("%s: rows differ from the recursion's by %s" % (what, [float(np.max(np.abs(a - b))) for a, b in zip(out, want)]))


CFG = (
    dict(), dict(epsilon=0.2), dict(epsilon=0.05, beta_progress=False, noise_scale=0.3), dict(extrema_detection="parabol", epsilon=0.1, FIXE=2),
    dict(range_thr=0.5), dict(total_power_thr=4.0), dict(range_thr=1e-4, total_power_thr=1e-3, epsilon=0.05), dict(spline_kind="akima", nbsym=1, FIXE_H=1, epsilon=0.1, noise_scale=5.0),
)


def sig(s):
    return G.make(s.split("/")[0], int(s.split("/")[1])) if isinstance(s, str) else np.array(s, float)


def noise_cases(sigs, bank, trials, cfgs):
    for s, t in itertools.product(sigs, trials):
        for words in itertools.product(bank, repeat=t):
            for c in cfgs:
                yield {"signal": s, "noise": list(words), "cfg": c}


def noises(case, ctx):
    S = sig(case["signal"])
    n = len(S)
    kw = dict({"MAX_ITERATION": 30}, **CFG[case["cfg"]])
    units = [BANK[w](n) for w in case["noise"]]
    for T, k in ((None, -1), (None, 2), (G.SHORT_T["uneven"](n), 3), (np.arange(n) * 0.5, 1), (np.cumsum(1 + np.arange(n) % 3), 4), (np.cumsum(1 + np.arange(n) % 4 // 3).astype("float32"), 12)):
        recursion(ctx, S, T, units, kw, k, "%s T=%s max_imf=%d" % (case, T is not None, k))


def many_cases(trials):
    for t, s, c in itertools.product(trials, ("two_tones/24", "three_tones_trend/40", "walk/120", "noisy_ramp/16"), (0, 2, 3)):
        if t * int(s.split("/")[1]) <= 5000:
            yield {"trials": t, "signal": s, "cfg": c}


def many(case, ctx):
    S = sig(case["signal"])
    kw = dict({"FIXE": 3}, **CFG[case["cfg"]])
    units = [G.lcg(len(S), 100 + i) * (1 + i % 3) for i in range(case["trials"])]
    recursion(ctx, S, None, units, kw, -1 if case["cfg"] else 4, str(case))


class Halving:
    """A decomposer that halves what it is given, up to `modes` times; CEEMDAN then goes on for as long as its rules let it."""

    def __init__(self, modes=1):
        self.modes = modes

    def emd(self, S, T=None, max_imf=-1):
        w = np.where(np.arange(len(S)) % 2, 0.4, 0.5)
        k = min(self.modes, max_imf) if max_imf > 0 else self.modes
        return np.array([w * (1 - w) ** i * S for i in range(k)] + [(1 - w) ** k * S])

    __call__ = emd


def deep_cases(limits):
    for n, r, p in itertools.product((6, 9), (1e-2, 1e-5, 1e-9, 0.0), (5e-2, 1e-6, 0.0)):
        for k in limits:
            for prog, m in ((False, 1), (True, 1), (False, 3), (False, 9), (False, 40), (True, 120)):
                yield {"n": n, "range_thr": r, "total_power_thr": p, "limit": k, "progress": prog, "modes": m}


def deep(case, ctx):
    """Many components: the recursion closed-form with a halving decomposer."""
    from PyEMD import CEEMDAN

    n, k = case["n"], case["limit"]
    S = np.round(6 * G.lcg(n, 3)) + 0.5 * np.arange(n)
    units = [G.lcg(n, 11 + i) for i in range(3)]
    e = CEEMDAN(trials=3, parallel=False, epsilon=0.1, range_thr=case["range_thr"], total_power_thr=case["total_power_thr"], ext_EMD=Halving(case["modes"]))
    fakes.plant(e, fakes.ScriptedRandom(units))
    with contextlib.redirect_stderr(io.StringIO()):
        out = e.ceemdan(S, None, k, progress=case["progress"])
    ctx.step(3 * len(out))
    complete(ctx, e, S, out, k, str(case))
    ref = Model(dict(epsilon=0.1, range_thr=case["range_thr"] or 1e-300, total_power_thr=case["total_power_thr"] or 1e-300))
    ref.emd = lambda x, T, k: Halving(case["modes"]).emd(x, T, k)
    want = ref.run(S, None, units, k)
    if ref.margin < 1e-6:
        ctx.skip()
        return
    ctx.require(len(out) == len(want), lambda: "%s: %d rows, the recursion gives %d" % (case, len(out), len(want)))
    ctx.require(np.max(np.abs(out - want)) <= 1e-9 * np.max(np.abs(S)), lambda: "%s: rows differ from the recursion's" % case)
    ctx.validate()
    ctx.state(str(case), len(out))


def amp_cases(amps):
    for a, s, c in itertools.product(amps, ("two_tones/24", "noisy_ramp/16", "walk/30", "quantised/20"), (0, 2, 3)):
        yield {"amp": a, "signal": s, "cfg": c}


def amps(case, ctx):
    """Signals of every order of magnitude."""
    S = sig(case["signal"]) * case["amp"]
    kw = dict({"MAX_ITERATION": 30}, **CFG[case["cfg"]])
    for k in (-1, 2):
        recursion(ctx, S, None, [BANK["rand"](len(S)), BANK["wave"](len(S))], kw, k, "%s max_imf=%d" % (case, k))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def words(case, ctx):
    S = np.array(case["word"], float)
    n = len(S)
    if not S.any():
        return
    for c in (0, 2, 3):
        kw = dict({"MAX_ITERATION": 30}, **CFG[c])
        for k in (-1, 1):
            recursion(ctx, S, None, [BANK["rand"](n), BANK["rand2"](n)], kw, k, "S=%s %s max_imf=%d" % (case["word"], kw, k))


def complete_cases(ns, amps, seeds):
    for f, n, a, s in itertools.product(G.FAMILIES, ns, amps, seeds):
        if f != "zero":
            yield {"family": f, "n": n, "amp": a, "seed": s}


def completes(case, ctx):
    """Real seeded noise; amplitudes and number types."""
    from PyEMD import CEEMDAN

    base = G.make(case["family"], case["n"], case["amp"])
    sigs = [base]
    if case["amp"] == 1.0:
        sigs += [np.round(base * 40).astype("int16"), np.round(base * 40).astype("int64"), base[::-1], base.astype("float32")]
    for S in sigs:
        for kw, k in ((dict(), -1), (dict(noise_kind="uniform", epsilon=0.1), 3), (dict(extrema_detection="parabol", beta_progress=False), 1)):
            e = CEEMDAN(trials=2, parallel=False, seed=case["seed"], MAX_ITERATION=20, **kw)
            out = e(S, None, k)
            ctx.step()
            if S.dtype == np.float32:
                ctx.require(np.all(np.isfinite(out)) and np.max(np.abs(out.sum(axis=0) - S)) <= 1e-4 * max(1e-30, np.max(np.abs(S))), lambda: "%s float32: rows do not add up" % case)
            else:
                complete(ctx, e, S, out, k, "%s %s %s max_imf=%d" % (case, S.dtype, kw, k))
            ctx.validate()
            ctx.state(sorted(case.items()), str(S.dtype), k, out.shape)


def end_cases(n, alphabet):
    for w in G.tuples(alphabet, n):
        yield {"word": list(w)}


def ends(case, ctx):
    """end_condition on every residual word."""
    from PyEMD import CEEMDAN, EMD

    if not hasattr(CEEMDAN, "end_condition"):
        return
    rest = np.array(case["word"], float)
    n = len(rest)
    one = len(EMD().emd(rest, None, max_imf=1)) == 1
    for rows in (1, 3):
        C = np.array([np.round(8 * G.lcg(n, r + 1)) / 4 for r in range(rows)])  # dyadic: the subtraction is exact
        S = rest + C.sum(axis=0)
        for r, p in ((0.01, 0.05), (0.93, 0.0), (0.0, 1.47), (2.9, 0.1), (0.1, 3.3)):
            for k in (-1, 1, 2, 3, 4):
                e = CEEMDAN(parallel=False, range_thr=r, total_power_thr=p, ext_EMD=EMD())
                got = bool(e.end_condition(S, C, k))
                want = 0 < k <= rows or one or np.ptp(rest) < r or np.sum(np.abs(rest)) < p
                ctx.step()
                ctx.require(got == want, lambda: "end_condition with residual %s, %d components, limit %d, range_thr %g, total_power_thr %g is %s" % (case["word"], rows, k, r, p, got))
    ctx.validate()
    ctx.state(case["word"], one)


class C11(core.Check):
    id = "C11"
    preload = ("PyEMD",)
    technique = "reference recursion run in lockstep with the real code over every assignment of noise words to trials x signals x configurations; rounding-perturbed model variants identify undetermined inputs"
    level_note = "All noise assignments of 1-2 (3 thorough) trials from 6 words over 8 signals x 8 configurations x limits and axes, all 3-letter signal words to length 5 (6), 20 families x amplitudes x number types for completeness, every residual word for the end condition."
    assumptions = ["each trial decomposition is the implementation's own EMD (decided by C01-C06)", "noise realisations are not identically zero", "inputs on a rounding knife edge are counted, not judged, when implementation and model differ"]

    def spaces(self, tier):
        q = tier == "quick"
        sigs = [[0, 1, -1, 2, 0], [0, 2, -1, 3, 1, 1, -2, 0], "two_tones/24", "noisy_ramp/16", "steps/12", "ramp/9", "walk/30", "constant/10"]
        return [
            core.Space("end-condition", lambda: end_cases(4 if q else 6, (0, 0.25, -1, 1.5)), ends, "every residual word x thresholds x limits"),
            core.Space("noise-words", lambda: noise_cases(sigs, list(BANK), (1, 2) if q else (1, 2, 3), range(len(CFG))), noises, "every assignment of noise words to trials"),
            core.Space("many", lambda: many_cases((5, 12, 40) if q else (5, 8, 12, 20, 40, 101)), many, "larger ensembles and longer signals", timeout=300),
            core.Space("deep", lambda: deep_cases((-1, 1, 5, 10, 11, 12, 20, 40, 99) if q else (-1,) + tuple(range(1, 100))), deep, "many components, with and without progress display"),
            core.Space("amplitudes", lambda: amp_cases((1e-100, 1e-30, 1e-12, 1e-9, 1e-6, 1e6, 1e12, 1e40) if q else tuple(10.0**e for e in range(-120, 121, 8))), amps, "amplitudes over many orders of magnitude"),
            core.Space("words", lambda: word_cases([((0, 1), 2), ((-1, 0, 2), 3), ((-1, 0, 2), 4), ((-1, 0, 2), 5)] + ([] if q else [((-1, 0, 2), 6), ((0, 1), 9)])), words, "every signal word"),
            core.Space("complete", lambda: complete_cases((3, 8, 25) if q else (2, 3, 5, 8, 16, 25, 60, 150), (1.0, 1e-4, 1e5), (1, 2) if q else range(6)), completes, "families x amplitudes x seeds x number types"),
        ]


CHECK = C11()
