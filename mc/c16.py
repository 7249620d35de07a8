"""C16: the compiled EMD agrees with the reference EMD."""
import itertools

import numpy as np

from mc import core, ref_emd as E, ref_extrema as R, signals as G
from mc.c06 import STOPS

KINDS = ("cubic", "akima", "slinear", "quadratic", "linear")


def jit():
    from PyEMD.experimental import jitemd

    return jitemd


def config(kw):
    c = jit().default_emd_config.copy()
    for k, v in kw.items():
        c[k] = float(v)
    return c


def judge(ctx, S, stop, kind, det, nbsym, max_imf, what, default=False, T=None):
    """One run of each implementation; a difference is judged by the model of the sifting loop."""
    from PyEMD import EMD

    J = jit()
    T = np.arange(len(S), dtype=float) if T is None else T
    what = "%s %s spline=%s extrema=%s nbsym=%d max_imf=%d" % (what, stop, kind, det, nbsym, max_imf)
    cfg = None if default else config(dict(stop, nbsym=nbsym))
    before = dict(cfg or J.default_emd_config)
    s_in, t_in = S.copy(), T.copy()
    j = J.JitEMD(config=cfg, spline_kind=kind, extrema_detection=det)
    rows = j(s_in, t_in, max_imf) if max_imf != -1 else j(s_in, t_in)
    ctx.step()
    ctx.require(dict(cfg or J.default_emd_config) == before, lambda: what + ": the configuration was modified")
    ctx.require(np.array_equal(s_in, S) and np.array_equal(t_in, T), lambda: what + ": the input was modified")
    rows = np.asarray(rows)
    ctx.require(rows.ndim == 2 and rows.shape[1] == len(S) and np.all(np.isfinite(rows)), lambda: "%s: rows of shape %s, finite: %s" % (what, rows.shape, np.all(np.isfinite(rows))))
    scale = max(1e-300, np.max(np.abs(S)), np.max(np.abs(rows)) if rows.size else 0)
    left = np.max(np.abs(S - rows.sum(axis=0)))
    ctx.require(left <= 1e-8 + 1e-12 * scale, lambda: "%s: the rows miss the signal by %g" % (what, left))
    comps, trend = j.get_imfs_and_trend()
    ctx.require(np.shape(trend) == (len(S),), lambda: "%s: trend of shape %s" % (what, np.shape(trend)))
    if len(rows):
        ctx.require(np.array_equal(np.vstack((comps, trend)), rows), lambda: what + ": components and trend are not the returned rows")
    else:
        ctx.require(len(comps) == 0 and not np.any(trend), lambda: what + ": components of a signal without any")
    e = EMD(spline_kind=kind, extrema_detection=det, nbsym=nbsym, **stop)
    want = np.asarray(e.emd(S.copy(), T.copy(), max_imf=max_imf))
    ctx.step()
    ctx.state(what, rows.shape[0])
    if E.agree(rows, want, 1e-7 * scale):
        ctx.validate()
        return
    cfgm = dict(stop, spline_kind=kind, extrema_detection=det, nbsym=nbsym)
    mi, mr, counts = E.decompose(S, T, cfgm, E.ImplBlocks(**cfgm), max_imf)
    for v in range(1, 17):
        vi, vr, vc = E.decompose(S, T, cfgm, E.ImplBlocks(**cfgm), max_imf, jiggle=v)
        if vc != counts or not E.agree(vi, mi, 1e-8 * scale):
            ctx.skip()
            return
    ctx.fail("%s: %d rows, EMD returns %d%s" % (what, len(rows), len(want), "" if rows.shape != want.shape else "; differences %s" % np.max(np.abs(rows - want), axis=1).tolist()))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


WORD_CONFIGS = (
    ({}, "cubic", "simple", 2, -1), ({}, "cubic", "parabol", 2, -1), ({"FIXE": 1}, "cubic", "simple", 1, -1), ({"FIXE": 2}, "cubic", "parabol", 1, 2),
    ({"FIXE_H": 2, "MAX_ITERATION": 30}, "akima", "simple", 2, 1), ({"MAX_ITERATION": 3}, "slinear", "parabol", 3, -1), ({"MAX_ITERATION": 4}, "quadratic", "simple", 3, -1),
)


def words(case, ctx):
    S = np.array(case["word"], float)
    for stop, kind, det, nb, mi in WORD_CONFIGS:
        judge(ctx, S, stop, kind, det, nb, mi, "S=%s" % case["word"])


def fam_cases(ns, amps):
    for n, name, amp, i in itertools.product(ns, G.FAMILIES, amps, range(len(STOPS))):
        yield {"family": name, "n": n, "amp": amp, "stop": i}


def fams(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    stop = dict({"MAX_ITERATION": 100}, **STOPS[case["stop"]])
    for det in ("simple", "parabol"):
        judge(ctx, S, stop, "cubic", det, 2, -1, str(case))
        if not case["stop"]:
            judge(ctx, S, {}, "cubic", det, 2, -1, str(case), default=True)


def opt_cases(ns):
    for n, name, kind, det, nb in itertools.product(ns, G.FAMILIES, KINDS, ("simple", "parabol"), (1, 2, 3, 5)):
        yield {"family": name, "n": n, "kind": kind, "det": det, "nbsym": nb}


def opts(case, ctx):
    S = G.make(case["family"], case["n"])
    for stop, mi in (({"MAX_ITERATION": 60}, -1), ({"FIXE": 2}, 1), ({"FIXE_H": 2, "MAX_ITERATION": 25}, 2), ({"MAX_ITERATION": 6}, 3)):
        judge(ctx, S, stop, case["kind"], case["det"], case["nbsym"], mi, str(case))


# time axes in normal form: from zero, smallest step one
AXES = {
    "steps": lambda n: np.arange(n, dtype=float),
    "gaps": lambda n: np.cumsum([0] + [1 + (i * i % 5 == 4) * 2 for i in range(1, n)]).astype(float),
    "widening": lambda n: np.cumsum([0] + [1 + i / 4 for i in range(n - 1)]).astype(float),
    "narrowing": lambda n: np.cumsum([0] + [1 + (n - 2 - i) / 4 for i in range(n - 1)]).astype(float),
    "one-close": lambda n: np.cumsum([0] + [1.0 if i == n // 2 else 2.5 for i in range(n - 1)]).astype(float),
}


def axis_cases(ns):
    for n, name, ax, det in itertools.product(ns, G.FAMILIES, AXES, ("simple", "parabol")):
        if det == "parabol" or ax == "steps":  # plain detection always counts samples
            yield {"family": name, "n": n, "axis": ax, "det": det}


def axes(case, ctx):
    """Uneven time axes, and other spellings of the spline kind."""
    S, T = G.make(case["family"], case["n"]), AXES[case["axis"]](case["n"])
    for kind, nb, stop, mi in (("cubic", 2, {"FIXE": 2}, -1), ("Cubic", 1, {"MAX_ITERATION": 8}, 2), ("AKIMA", 2, {"FIXE_H": 1, "MAX_ITERATION": 12}, -1), ("sLinear", 3, {"FIXE": 1}, 1), ("Quadratic", 2, {"FIXE": 2}, -1)):
        judge(ctx, S, stop, kind, case["det"], nb, mi, str(case), T=T.copy())


def block_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def blocks(case, ctx):
    """Extrema and zero-crossings of the compiled detection against the definitions."""
    J = jit()
    w = case["word"]
    S = np.array(w, float)
    if not hasattr(J, "find_extrema"):
        return ctx.skip()
    T = np.arange(len(w), dtype=float)
    for det, f in (("simple", R.simple), ("parabol", R.parabol)):
        r = [np.asarray(x).tolist() for x in J.find_extrema(T, S, det)]
        want = [list(x) for x in f(T.tolist(), S.tolist())] + [R.zeros(S.tolist())]
        ctx.step()
        for name, g, x in zip(("maxima", "maxima values", "minima", "minima values", "zero-crossings"), r, want):
            x = [float(v) for v in x]
            ctx.require(len(g) == len(x) and np.allclose(g, x, rtol=1e-9, atol=1e-9), lambda: "S=%s %s: %s are %s, not %s" % (w, det, name, g, x))
    ctx.validate()
    ctx.state(w)


def long_cases(ns):
    for n, name, det, i in itertools.product(ns, ("tone", "chirp", "noise", "walk", "quantised", "two_tones", "square"), ("simple", "parabol"), range(4)):
        yield {"family": name, "n": n, "det": det, "cfg": i}


def longs(case, ctx):
    """Many samples and many extrema."""
    stop, kind, nb, mi = (({"FIXE": 1}, "cubic", 2, 2), ({"MAX_ITERATION": 4}, "cubic", 2, 1), ({"FIXE": 2}, "akima", 9, 1), ({"FIXE": 1}, "slinear", 1, -1))[case["cfg"]]
    if case["n"] > 10000 and mi == -1:
        mi = 3
    judge(ctx, G.make(case["family"], case["n"]), stop, kind, case["det"], nb, mi, str(case))


def function_cases(ns):
    for n, name, det, kind, mi in itertools.product(ns, ("noise", "walk", "quantised", "two_tones", "ramp", "zero"), ("simple", "parabol"), ("cubic", "akima", "slinear"), (-1, 1, 2)):
        yield {"family": name, "n": n, "det": det, "kind": kind, "limit": mi}


def function(case, ctx):
    """The function-style interface gives what the class gives; settings of one object do not leak into another."""
    J = jit()
    S = G.make(case["family"], case["n"])
    T = np.arange(len(S), dtype=float)
    for stop in ({"FIXE": 2}, {"FIXE_H": 1, "MAX_ITERATION": 9}, {"MAX_ITERATION": 5, "std_thr": 3.0}):
        c = config(stop)
        a = J.emd(S.copy(), T.copy(), max_imf=case["limit"], spline_kind=case["kind"], extrema_detection=case["det"], config=c)
        b = J.JitEMD(config=c, spline_kind=case["kind"], extrema_detection=case["det"]).emd(S.copy(), T.copy(), case["limit"])
        ctx.step(2)
        ctx.require(np.array_equal(a, b), lambda: "%s %s: function and class disagree" % (case, stop))
        ctx.validate()
    if case["det"] == "simple" and case["kind"] == "cubic" and case["limit"] == -1:
        ctx.require(np.array_equal(J.emd(S.copy(), T.copy()), J.JitEMD().emd(S.copy(), T.copy())), lambda: "%s: defaults of function and class differ" % case)
    ctx.state(sorted(map(str, case.items())))


def ensemble_cases():
    for name, det, sep, mi in itertools.product(("two_tones", "noise", "walk", "edge_burst", "three_tones_trend"), ("simple", "parabol"), (False, True), (-1, 1, 2)):
        yield {"family": name, "det": det, "separate": sep, "limit": mi}


def ensemble(case, ctx):
    """As the decomposer of an ensemble the compiled variant gives the same ensemble."""
    from PyEMD import EEMD, EMD

    S = G.make(case["family"], 30)
    T = np.arange(30.0)
    J = jit()
    outs = []
    for dec in (J.JitEMD(config=config({"FIXE": 2}), extrema_detection=case["det"]), EMD(FIXE=2, extrema_detection=case["det"])):
        e = EEMD(trials=4, ext_EMD=dec, parallel=False, separate_trends=case["separate"], noise_width=0.3)
        e.noise_seed(11)
        outs.append((np.array(e(S.copy(), T.copy(), case["limit"])), e.ensemble_count()))
        ctx.step(4)
    ctx.require(outs[0][1] == outs[1][1] and E.agree(outs[0][0], outs[1][0], 1e-7), lambda: "%s: ensemble of the compiled variant differs from the plain one's" % case)
    ctx.validate()
    ctx.state(sorted(map(str, case.items())), outs[0][0].shape)


def timeline_cases(lens):
    for dt, n in itertools.product(("int8", "uint8", "int16", "uint16", "int32", "int64", "float16", "float32", "float64", "none"), lens):
        yield {"dtype": dt, "n": n}


def timeline(case, ctx):
    """The compiled module's own timeline helper counts exactly."""
    J = jit()
    if not hasattr(J, "get_timeline"):
        return ctx.skip()
    n = case["n"]
    t = J.get_timeline(n) if case["dtype"] == "none" else J.get_timeline(n, np.dtype(case["dtype"]))
    ctx.step()
    ctx.require(t.shape == (n,) and np.array_equal(t.astype("int64"), np.arange(n)) and np.all(t == np.floor(t)), lambda: "get_timeline%s does not count 0,1,2,..." % case)
    if n < 300:
        t[:] = 1
        t = J.get_timeline(n) if case["dtype"] == "none" else J.get_timeline(n, np.dtype(case["dtype"]))
        ctx.require(np.array_equal(t.astype("int64"), np.arange(n)), lambda: "get_timeline%s does not count 0,1,2,... once an earlier timeline was changed" % case)
    ctx.validate()
    ctx.state(case["dtype"], n)


def history_cases():
    for seq in itertools.product(range(3), repeat=3):
        for det in ("simple", "parabol"):
            yield {"signals": list(seq), "det": det}


def history(case, ctx):
    """Runs on one object do not influence each other; results are not shared."""
    J = jit()
    sig = [G.make("noise", 20), G.make("zero", 20), G.make("two_tones", 31)]
    j = J.JitEMD(extrema_detection=case["det"])
    kept = []
    for i in case["signals"]:
        T = np.arange(len(sig[i]), dtype=float)
        r = j.emd(sig[i], T)
        fresh = J.JitEMD(extrema_detection=case["det"]).emd(sig[i], T)
        ctx.step(2)
        ctx.require(np.array_equal(r, fresh), lambda: "%s: a reused object decomposes differently" % case)
        c, t = j.get_imfs_and_trend()
        kept.append((r, r.copy(), c, c.copy(), t, t.copy()))
    for k in kept:
        ctx.require(np.array_equal(k[0], k[1]) and np.array_equal(k[2], k[3]) and np.array_equal(k[4], k[5]), lambda: "%s: an earlier result was modified" % case)
    ctx.validate()
    ctx.state(sorted(map(str, case.items())))


def error_cases():
    yield {"what": "kind"}
    yield {"what": "extrema"}
    yield {"what": "shape"}


def errors(case, ctx):
    J = jit()
    S, T = G.make("noise", 20), np.arange(20.0)
    ctx.step()
    ctx.state(str(case))
    try:
        if case["what"] == "kind":
            J.JitEMD(spline_kind="nonsense").emd(S, T)
        elif case["what"] == "extrema":
            J.JitEMD(extrema_detection="nonsense").emd(S, T)
        else:
            J.JitEMD().emd(S, np.arange(21.0))
    except ValueError:
        return
    ctx.fail("%s: accepted" % case)


def warm():
    """Compile the lazily compiled building blocks once, before the workers are forked."""
    J = jit()
    S, T = G.make("noise", 20), np.arange(20.0)
    try:
        for det in ("simple", "parabol"):
            mx, mn = J.extract_max_min_extrema(T, S, 2, det)
            for k in KINDS:
                J.spline_points(T, mx, k)
            J.spline_points(T, mx[:, :3], "cubic")
        J.check_imf(S, S * 1.1, mx, mn, 0.1, 0.1, 0.1)
        J.end_condition(S, np.array([S, S]), 0.1, 0.1)
    except Exception:
        pass  # the cases decide


class C16(core.Check):
    id = "C16"
    preload = ("PyEMD", "scipy.interpolate", "PyEMD.experimental.jitemd")
    technique = "exhaustive differential exploration of the compiled implementation against the plain EMD over all words and families x stopping rules x splines x detections x mirror counts; differences are arbitrated by rounding-perturbed runs of the reference sifting machine"
    level_note = "all words over 3 letters to length 6 (7 thorough) x 7 configurations, 21 families x 28 stopping rules x 2 detections, 5 splines x 4 mirror counts x 4 limits; compiled extrema detection against the definitions on all words. Inputs whose control flow hangs on rounding are counted, not judged."
    assumptions = ["double precision signals on the axis 0, 1, 2, ... or, with parabolic detection, an uneven axis from zero with smallest step one", "inputs on a rounding knife edge are not judged when the implementations differ"]

    def spaces(self, tier):
        q = tier == "quick"
        warm()
        W = [((-1, 0, 2), n) for n in range(3, 6 if q else 8)] + [((-1, 1, 3, 4), 6), ((0, 1), 8 if q else 12)]
        B = [((-1, 0, 1, 2), n) for n in range(3, 7 if q else 9)] + [((-1, 0, 1), 8 if q else 10)]
        return [
            core.Space("timeline", lambda: timeline_cases(sorted({m + k for m in (2, 127, 255, 2047, 2049, 32767, 65535) for k in (-1, 0, 1, 2)} | {3, 1000, 70001} | ({1 << 24, (1 << 24) + 2} if not q else set()))), timeline, "number types x lengths around every representable limit", timeout=60),
            core.Space("errors", error_cases, errors, "unknown spline, detection, mismatched axis", timeout=20),
            core.Space("extrema", lambda: block_cases(B), blocks, "every word", timeout=20, block=32),
            core.Space("words", lambda: word_cases(W), words, "every word x 7 configurations", timeout=30, block=8),
            core.Space("history", history_cases, history, "all sequences of 3 runs on one object", timeout=30),
            core.Space("families", lambda: fam_cases((7, 24, 60) if q else (5, 7, 10, 16, 24, 40, 60, 120, 300), (1.0,) if q else (1.0, 1e-9, 1e-2, 20.0)), fams, "families x stopping rules x detections", timeout=30, block=4),
            core.Space("tiny", lambda: fam_cases((12,), (1e-9, 30.0)), fams, "families at other amplitudes", timeout=30, block=4),
            core.Space("long", lambda: long_cases((400, 70000) if q else (400, 1500, 5000, 33000, 70000)), longs, "long signals (to 70000 samples) x detections x 4 configurations", timeout=120, block=1),
            core.Space("function", lambda: function_cases((9, 40) if q else (5, 9, 24, 40, 100)), function, "function-style interface against the class", timeout=30, block=4),
            core.Space("ensemble", ensemble_cases, ensemble, "as decomposer of an EEMD with fixed noise", timeout=30),
            core.Space("axes", lambda: axis_cases((9, 40) if q else (6, 9, 16, 40, 90, 200)), axes, "families x uneven axes x detections x 5 configurations", timeout=30, block=4),
            core.Space("options", lambda: opt_cases((8, 25, 50) if q else (6, 8, 12, 18, 25, 50, 90)), opts, "families x splines x detections x mirror counts x limits", timeout=30, block=4),
        ]


CHECK = C16()
