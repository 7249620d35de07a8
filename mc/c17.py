"""C17: the MATLAB-style EMD reconstructs its input, keeps its bookkeeping and follows its stopping rules."""
import itertools
import logging

import numpy as np

from mc import core, ref_emd as E, ref_extrema as R, signals as G

ATTRS = ("splineKind", "nbsym", "reduceScale", "maxIteration", "FIXE", "FIXE_H", "stop1", "stop2", "stop3", "MAX_ITERATION")
DEFAULT = dict(splineKind="cubic", nbsym=2, reduceScale=1.0, maxIteration=500, FIXE=0, FIXE_H=0, stop1=0.05, stop2=0.5, stop3=0.05, MAX_ITERATION=1000)

STOPS = (
    {}, {"FIXE": 1}, {"FIXE": 2}, {"FIXE": 5}, {"FIXE_H": 1}, {"FIXE_H": 3}, {"FIXE": 2, "FIXE_H": 4}, {"maxIteration": 3}, {"maxIteration": 12}, {"MAX_ITERATION": 4},
    {"stop1": 0.5, "stop2": 2.0, "stop3": 0.2}, {"stop1": 0.01, "maxIteration": 40}, {"stop2": 0.06, "maxIteration": 40}, {"stop3": 0.5}, {"stop3": 0.0, "stop1": 0.3, "maxIteration": 60},
    {"stop1": 0.3, "stop2": 10.0, "stop3": 0.3}, {"reduceScale": 0.5, "maxIteration": 30}, {"nbsym": 1}, {"nbsym": 3, "splineKind": "akima", "maxIteration": 40},
    {"splineKind": "slinear", "maxIteration": 25}, {"splineKind": "Cubic", "FIXE": 1}, {"splineKind": "AKIMA", "FIXE": 1}, {"splineKind": "quadratic", "nbsym": 3, "maxIteration": 25}, {"splineKind": "linear", "FIXE": 2},
)


class Impl:
    """The class's own building blocks on a fresh object."""

    def __init__(self, cfg):
        from PyEMD.EMD_matlab import EMD

        self.e = EMD()
        for k, v in cfg.items():
            setattr(self.e, k, v)

    def count(self, T, h):
        r = self.e.findExtrema(T, h)
        return len(r[0]) + len(r[2]), len(r[4])

    def envelopes(self, T, h):
        r = self.e.extractMaxMinSpline(T, h)
        return None if isinstance(r[0], int) else (r[0], r[1])


class Ref:
    """Reference extrema, mirroring and interpolation."""

    def __init__(self, cfg):
        self.b = E.RefBlocks("simple", cfg.get("splineKind", "cubic"), cfg.get("nbsym", 2))

    def count(self, T, h):
        a, b, z = self.b.extrema(T, h)
        return a + b, z

    def envelopes(self, T, h):
        if self.count(T, h)[0] < 3:
            return None
        return self.b.envelopes(T, h)[:2]


def model(S, T, cfg, blocks, limit, jiggle=0):
    """Returns rows [(component, siftings counter, extrema count or None)], remainder; 'None' when undetermined."""
    c = dict(DEFAULT, **cfg)
    scale = np.max(np.abs(S))
    rest, rows, tick = S.copy(), [], 0
    while True:
        h, mean, n, run, done, ext = rest.copy(), np.zeros(len(S)), 0, 0, False, 0
        span = np.ptp(rest)
        if 1e-12 * scale < span < 1e-8 * scale:
            return None
        while n < c["MAX_ITERATION"]:
            n += 1
            ext, zero = blocks.count(T, h)
            shown = ext
            if ext <= 2 or span <= 1e-10 * scale:
                done = True
                break
            h = h - c["reduceScale"] * mean
            if jiggle and n > 1:
                tick += 1
                h = h + 2e-15 * (np.abs(h) + scale) * G.lcg(len(S), jiggle * 7919 + tick)
            env = blocks.envelopes(T, h)
            shown = None
            if env is None:
                break
            mean = 0.5 * (env[0] + env[1])
            if n > c["maxIteration"]:
                break
            if c["FIXE"]:
                if n > c["FIXE"]:
                    break
                continue
            ext, zero = blocks.count(T, h)
            shown = ext
            balanced = abs(ext - zero) <= 1
            if c["FIXE_H"]:
                if n == 1:
                    continue
                run = run + 1 if balanced else 0
                if run >= c["FIXE_H"]:
                    break
            else:
                with np.errstate(all="ignore"):
                    sx = np.abs(mean) / (np.abs(env[0] - env[1]) / 2.0)
                small = not (np.mean(sx > c["stop1"]) > c["stop3"] or np.any(sx > c["stop2"]))
                if small and ext > 2 and balanced:
                    break
        rows.append((h, n, shown))
        rest = rest - h
        if done or len(rows) == limit - 1:
            return rows, rest


def same(got, ref, S, tol):
    comps, its, exts = got
    rows, rest = ref
    k = len(rows)
    if len(comps) not in (k, k + 1) or any(np.max(np.abs(comps[i] - rows[i][0])) > tol for i in range(k)):
        return False
    if [its[i] for i in range(k)] != [r[1] for r in rows]:
        return False
    if any(r[2] is not None and exts[i] != r[2] for i, r in enumerate(rows)):
        return False
    left = comps[k] if len(comps) > k else np.zeros(len(S))
    return np.max(np.abs(left - (S - sum(comps[:k])))) <= tol


def judge(ctx, S, T, cfg, limit, blocks, what, dtype=None):
    from PyEMD.EMD_matlab import EMD

    what = "%s %s maxImf=%s" % (what, cfg, limit)
    e = EMD()
    for k, v in cfg.items():
        setattr(e, k, v)
    s_in = S.copy() if dtype is None else S.astype(dtype)
    t_in = None if T is None else T.copy()
    keep = s_in.copy()
    out = e.emd(e, s_in, t_in, limit) if limit is not None else e.emd(e, s_in, t_in)
    ctx.step()
    ctx.require(len(out) == 4, lambda: "%s: %d results" % (what, len(out)))
    IMF, EXT, ITER, n = out
    ctx.require(np.array_equal(s_in, keep) and (T is None or np.array_equal(t_in, T)), lambda: what + ": the input was modified")
    ctx.require(list(range(n)) == sorted(IMF) == sorted(EXT) == sorted(ITER), lambda: "%s: %d components announced, components %s, extrema %s, iterations %s" % (what, n, sorted(IMF), sorted(EXT), sorted(ITER)))
    comps = [np.asarray(IMF[i], float) for i in range(n)]
    ctx.require(all(c.shape == S.shape and np.all(np.isfinite(c)) for c in comps), lambda: what + ": a component is not finite or has another shape")
    scale = max(np.max(np.abs(S)), max(np.max(np.abs(c)) for c in comps))
    eps = 1e-12 if keep.dtype == np.float64 or keep.dtype.kind in "iu" else 1e-4
    left = np.max(np.abs(keep.astype(float) - sum(comps)))
    ctx.require(left <= eps * scale + 1e-10, lambda: "%s: the components miss the signal by %g" % (what, left))
    if limit is not None and limit >= 2:
        ctx.require(n <= limit, lambda: "%s: %d components" % (what, n))
    ctx.state(what, n)
    if keep.dtype != np.float64:
        ctx.validate()
        return
    T0 = np.arange(len(S), dtype=float) if T is None else np.asarray(T, float)
    lim = limit if limit is not None and limit >= 2 else -1
    ref = model(S, T0, cfg, blocks(cfg), lim)
    if ref is None:
        ctx.skip()
        return
    got = comps, [ITER[i] for i in range(n)], [EXT[i] for i in range(n)]
    if same(got, ref, S, 1e-7 * scale):
        ctx.validate()
        ctx.step(sum(r[1] for r in ref[0]))
        return
    for j in range(1, 17):
        v = model(S, T0, cfg, blocks(cfg), lim, jiggle=j)
        if v is None or not same(([r[0] for r in v[0]] + [v[1]], [r[1] for r in v[0]], [r[2] for r in v[0]]), ref, S, 1e-8 * scale):
            ctx.skip()
            return
    ctx.fail("%s: %d components with iterations %s and extrema %s; the stopping rules give %s" % (what, n, got[1], got[2], [(r[1], r[2]) for r in ref[0]]))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def words(case, ctx):
    S = np.array(case["word"], float)
    for cfg, lim in (({}, None), ({}, 2), ({"FIXE": 1}, None), ({"FIXE_H": 2, "maxIteration": 40}, 3), ({"splineKind": "akima", "maxIteration": 20, "nbsym": 1}, None), ({"splineKind": "slinear", "FIXE": 2}, -1)):
        judge(ctx, S, None, cfg, lim, Impl, "S=%s" % case["word"])
    judge(ctx, S, G.SHORT_T["uneven"](len(S)), {}, None, Impl, "uneven S=%s" % case["word"])


def balanced(case, ctx):
    """Odd signals (leftovers of any size that sum to zero), mirrored and periodic signals."""
    w = case["word"]
    for S in (w + [-v for v in w[::-1]], w + [0] + [-v for v in w[::-1]], w + w[::-1], w + [-v for v in w]):
        for cfg, lim in (({"FIXE": 1}, 2), ({"maxIteration": 10}, 2), ({"FIXE": 2, "splineKind": "slinear"}, 3), ({"FIXE": 1}, None)):
            judge(ctx, np.array(S, float), None, cfg, lim, Impl, "S=%s" % S)


def fam_cases(ns, amps):
    for n, name, amp, i in itertools.product(ns, G.FAMILIES, amps, range(len(STOPS))):
        yield {"family": name, "n": n, "amp": amp, "stop": i}


def fams(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    cfg = STOPS[case["stop"]]
    judge(ctx, S, None, cfg, None, Impl, str(case))
    judge(ctx, S, G.SHORT_T["uneven"](len(S)), cfg, 3, Impl, str(case))
    if not case["stop"]:
        for lim in (1, 2, 3, 4, -1, 0):
            judge(ctx, S, None, cfg, lim, Impl, str(case))
        judge(ctx, S, np.arange(len(S)), cfg, None, Impl, str(case))
        judge(ctx, S, None, cfg, None, Impl, str(case), dtype=np.float32)
        if case["amp"] == 1.0:
            judge(ctx, np.round(50 * S), None, dict(cfg, maxIteration=20), 4, Impl, str(case), dtype=np.int64)


def whole_cases(ns):
    for n, name, kind in itertools.product(ns, G.FAMILIES, ("cubic", "akima", "slinear", "quadratic")):
        yield {"family": name, "n": n, "kind": kind}


def whole(case, ctx):
    """The whole decomposition against a model sharing no code with it."""
    S = G.make(case["family"], case["n"])
    for stop in ({}, {"FIXE": 2}, {"FIXE_H": 2}):
        for T, nb in ((None, 2), (G.SHORT_T["uneven"](len(S)), 1), (G.SHORT_T["offset"](len(S)), 3)):
            judge(ctx, S, T, dict(stop, splineKind=case["kind"], nbsym=nb, maxIteration=30), None, Ref, "end to end %s" % case)


def extrema(case, ctx):
    from PyEMD.EMD_matlab import EMD

    w = case["word"]
    S = np.array(w, float)
    for T in (np.arange(len(w), dtype=float), G.SHORT_T["uneven"](len(w)), np.arange(len(w))):
        sk, tk = S.copy(), T.copy()
        r = EMD.findExtrema(T, S)
        ctx.step()
        want = [list(x) for x in R.simple(T.tolist(), S.tolist())] + [R.zeros(S.tolist())]
        ctx.require(np.array_equal(S, sk) and np.array_equal(T, tk), lambda: "S=%s: findExtrema modified its input" % w)
        for name, g, x in zip(("maxima", "maxima values", "minima", "minima values", "zero-crossings"), r, want):
            g = [float(v) for v in g]
            ctx.require(g == [float(v) for v in x], lambda: "S=%s T=%s: %s are %s, not %s" % (w, T.tolist(), name, g, x))
    ctx.validate()
    ctx.state(w)


def mirror(case, ctx):
    """Envelope knots after mirroring."""
    from PyEMD.EMD_matlab import EMD
    from mc import ref_mirror as M

    w = case["word"]
    S = np.array(w, float)
    mp, mv, np_, nv = R.simple(list(range(len(w))), w)
    if len(mp) + len(np_) < 3 or not mp or not np_:
        return
    for T in (np.arange(len(w), dtype=float), G.SHORT_T["uneven"](len(w))):
        for nb in (1, 2, 3):
            e = EMD()
            e.nbsym = nb
            up, lo = e.preparePoints(S, T, *e.findExtrema(T, S)[:4])
            a, b, c, d = R.simple(T.tolist(), S.tolist())
            ru, rl = M.knots(T.tolist(), S.tolist(), list(zip(a, b)), list(zip(c, d)), nb, False)
            ctx.step()
            for name, g, x in (("upper", up, ru), ("lower", lo, rl)):
                x = np.array(x).T
                ctx.require(g.shape == x.shape and np.allclose(g, x, rtol=1e-12, atol=1e-12), lambda: "S=%s T=%s nbsym=%d: %s knots %s, not %s" % (w, T.tolist(), nb, name, g.tolist(), x.tolist()))
    ctx.validate()
    ctx.state(w)


def error_cases():
    for n, m in itertools.product((5, 8, 20), repeat=2):
        if n != m:
            yield {"n": n, "m": m}


def errors(case, ctx):
    from PyEMD.EMD_matlab import EMD

    e = EMD()
    ctx.step()
    ctx.state(str(case))
    try:
        e.emd(e, G.make("noise", case["n"]), np.arange(case["m"], dtype=float))
    except ValueError:
        return
    ctx.fail("%s: mismatched lengths accepted" % case)


def long_cases(ns):
    for n, name in itertools.product(ns, ("tone", "two_tones", "offset_tone", "square")):
        yield {"family": name, "n": n}


def long(case, ctx):
    """Signals longer than any narrow index type reaches."""
    from PyEMD.EMD_matlab import EMD
    from mc import ref_mirror as M

    S = G.make(case["family"], case["n"])
    T = np.arange(case["n"], dtype=float)
    a, b, c, d = R.simple(T.tolist(), S.tolist())
    z = R.zeros(S.tolist())
    r = EMD.findExtrema(T, S)
    for name, g, x in zip(("maxima", "maxima values", "minima", "minima values", "zero-crossings"), r, (a, b, c, d, z)):
        ctx.require(np.array_equal(np.asarray(g, float), np.asarray(x, float)), lambda: "%s: %s differ from the definition" % (case, name))
    for nb in (1, 2):
        e = EMD()
        e.nbsym = nb
        up, lo = e.preparePoints(S, T, *r[:4])
        ru, rl = M.knots(T.tolist(), S.tolist(), list(zip(a, b)), list(zip(c, d)), nb, False)
        ctx.step()
        for name, g, x in (("upper", up, ru), ("lower", lo, rl)):
            x = np.array(x).T
            ctx.require(g.shape == x.shape and np.allclose(g, x, rtol=1e-12, atol=1e-12), lambda: "%s nbsym=%d: %s knots differ" % (case, nb, name))
    judge(ctx, S, None, {"FIXE": 1}, 2, Impl, str(case))


def deep(case, ctx):
    judge(ctx, G.make(case["family"], case["n"]), None, {"splineKind": case["kind"], "FIXE": case["FIXE"]}, case["limit"], Impl, str(case))


class C17(core.Check):
    id = "C17"
    preload = ("PyEMD", "PyEMD.EMD_matlab", "scipy.interpolate")
    technique = "exhaustive enumeration of words and families x stopping configurations; reference state machine of the MATLAB-style sifting loop run in lockstep, extrema and mirroring against the definitions on every word"
    level_note = "all words over 3-4 letters to length 6-7 (8 thorough), 21 families x 24 stopping rules x axes x limits; an end-to-end space compares with a model sharing no code. Inputs on which rounding-perturbed models disagree are counted, not judged. A limit of 1 (which the code treats as no limit) is only checked for completeness of the sum."
    assumptions = ["floating-point signals on strictly increasing axes (integer signals: only the sum is judged)", "inputs on a rounding knife edge are not judged when implementation and model differ"]

    def spaces(self, tier):
        logging.disable(logging.CRITICAL)
        q = tier == "quick"
        W = [((-1, 0, 2), n) for n in range(3, 7 if q else 9)] + [((-1, 1, 3, 4), 6), ((0, 1), 9 if q else 12)]
        B = [((-1, 0, 1, 2), n) for n in range(2, 8 if q else 10)]
        return [
            core.Space("errors", error_cases, errors, "mismatched lengths"),
            core.Space("extrema", lambda: word_cases(B), extrema, "every word x axes", block=64),
            core.Space("mirroring", lambda: word_cases([((0, 1, 2), 8 if q else 9), ((-1, 0, 1, 2), 6 if q else 8)]), mirror, "every word x axes x mirror counts", block=16),
            core.Space("words", lambda: word_cases(W), words, "every word x 7 configurations", timeout=30, block=4),
            core.Space("balanced", lambda: word_cases([((-1, 0, 2), n) for n in range(2, 5 if q else 7)] + [((-1, 1, 3, 4), 3 if q else 5)]), balanced, "odd, mirrored and repeated words x limits", timeout=30, block=4),
            core.Space("families", lambda: fam_cases((7, 24, 60) if q else (5, 7, 10, 16, 24, 40, 60, 120, 300), (1.0, 30.0) if q else (1.0, 1e-6, 30.0)), fams, "families x amplitudes x stopping rules x axes x limits", timeout=60, block=2),
            core.Space("long", lambda: long_cases((129, 257, 2050, 33000, 66000) if q else (129, 257, 513, 1025, 2050, 4100, 33000, 66000)), long, "signals to 66000 samples", timeout=120),
            core.Space("deep", lambda: ({"n": n, "family": f, "kind": k, "FIXE": x, "limit": lim} for n in (90, 91) for f in ("noise", "walk") for k in ("slinear", "linear") for x in (20, 40) for lim in (None, 9, 12, 13, 14, 16, 17, 20)), deep, "decompositions into up to 22 components x limits", timeout=120),
            core.Space("end-to-end", lambda: whole_cases((9, 25) if q else (7, 9, 16, 25, 40, 80)), whole, "independent model of the whole decomposition", timeout=60),
        ]


CHECK = C17()
