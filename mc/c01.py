"""C01: the components returned by EMD add back up to the signal, for every signal and configuration."""
import itertools

import numpy as np

from mc import core, signals as G

KINDS = ("cubic", "akima", "pchip", "cubic_hermite", "slinear", "linear", "quadratic")
STOPS = ({}, {"FIXE": 1}, {"FIXE": 4}, {"FIXE_H": 1}, {"FIXE_H": 3}, {"MAX_ITERATION": 3})
DETS = ("simple", "parabol")


def judge(ctx, S, T, out, what):
    ref = np.asarray(S, dtype=np.float64)
    ctx.require(isinstance(out, np.ndarray) and out.ndim == 2 and out.shape[1] == len(ref),
                lambda: "%s: result is not (components, %d): %r" % (what, len(ref), getattr(out, "shape", out)))
    ctx.require(np.all(np.isfinite(out)), lambda: "%s: non-finite component values" % what)
    big = max(np.max(np.abs(ref)), np.max(np.abs(out)) if out.size else 0.0)
    err = np.max(np.abs(out.astype(np.float64).sum(axis=0) - ref))
    tol = 1.01e-8 + 1e-12 * big
    common = S.dtype if T is None else np.result_type(S.dtype, np.asarray(T).dtype)
    common = min(common, S.dtype, key=lambda d: d.itemsize if d.kind == "f" else 99)
    if common.kind == "f" and common.itemsize < 8:  # the precision of the signal and its time axis
        tol += 4 * float(np.finfo(common).eps) * big * (len(out) + 1)
    ctx.require(err <= tol, lambda: "%s: components do not add up to the signal, error %.3g > %.3g" % (what, err, tol))


def run(ctx, S, T, kw, max_imf, what):
    from PyEMD import EMD

    e = EMD(**kw)
    out = e.emd(S, T, max_imf) if max_imf is not None else e(S, T)
    ctx.step()
    judge(ctx, S, T, out, what)
    ctx.validate()
    ctx.state(kw.get("spline_kind"), kw.get("extrema_detection"), len(S), out.shape, np.round(out, 6).tobytes())


def word_cases(specs):
    """specs: list of (alphabet, n)."""
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def words_all_configs(case, ctx):
    S = np.array(case["word"], dtype=float)
    for det, kind, nb, stop in itertools.product(DETS, KINDS, (1, 2, 3), STOPS):
        kw = dict(extrema_detection=det, spline_kind=kind, nbsym=nb, **stop)
        run(ctx, S, None, kw, None, "S=%s %s" % (case["word"], kw))


def words_main_configs(case, ctx):
    S = np.array(case["word"], dtype=float)
    n = len(S)
    for det, kind, nb in (("simple", "cubic", 2), ("parabol", "cubic", 2), ("simple", "akima", 1), ("parabol", "pchip", 1),
                          ("simple", "slinear", 4), ("parabol", "quadratic", 3), ("simple", "cubic_hermite", 2)):
        for max_imf in (-1, 1, 2):
            T = None if det == "simple" else G.SHORT_T["uneven"](n)
            kw = dict(extrema_detection=det, spline_kind=kind, nbsym=nb)
            run(ctx, S, T, kw, max_imf, "S=%s %s max_imf=%d" % (case["word"], kw, max_imf))


def family_cases(ns, amps, tier):
    for n in ns:
        for name in G.FAMILIES:
            for amp in amps if n < 64 or tier != "quick" else (1.0, 1e-3, 50.0):
                yield {"family": name, "n": n, "amp": amp}


def families(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    n = len(S)
    for det, kind, stop in itertools.product(DETS, ("cubic", "akima", "slinear", "cubic_hermite"), ({}, {"FIXE": 3}, {"FIXE_H": 2})):
        if kind != "cubic" and not stop.get("FIXE"):
            stop = dict(stop, MAX_ITERATION=60)
        for tname, max_imf in ((None, -1), ("uneven" if det == "parabol" else "offset", 2)):
            T = None if tname is None else G.SHORT_T[tname](n)
            kw = dict(extrema_detection=det, spline_kind=kind, **stop)
            run(ctx, S, T, kw, max_imf, "%s %s T=%s max_imf=%d" % (case, kw, tname, max_imf))


THRS = ({"range_thr": 1e-6, "total_power_thr": 1e-7}, {"range_thr": 0.5}, {"total_power_thr": 5.0}, {"std_thr": 1e-4, "svar_thr": 1e-6, "energy_ratio_thr": 1e-5, "MAX_ITERATION": 40},
        {"std_thr": 5.0, "svar_thr": 0.5, "energy_ratio_thr": 0.9}, {"scale_factor": 2.0, "MAX_ITERATION": 1}, {"MAX_ITERATION": 2}, {"nbsym": 6})


def thr_cases(ns, amps):
    for n in ns:
        for name in G.FAMILIES:
            for amp in amps:
                for i in range(len(THRS)):
                    yield {"family": name, "n": n, "amp": amp, "thr": i}


def thresholds(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    for det in DETS:
        for max_imf in (-1, 1, 3):
            kw = dict(extrema_detection=det, **THRS[case["thr"]])
            if kw.get("MAX_ITERATION") == 1 and max_imf == -1:
                continue  # no sifting at all: every component equals the residual, only a component limit ends it
            run(ctx, S, None, kw, max_imf, "%s %s max_imf=%d" % (case, kw, max_imf))


DTYPES = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "longdouble")


def dtype_cases(ns):
    for dt in DTYPES:
        for n in ns:
            for name in G.FAMILIES:
                if dt == "float32" and name == "offset_tone":  # the offset's rounding error exceeds the stopping thresholds
                    continue
                for layout in ("plain", "strided", "reversed", "readonly", "swapped"):
                    yield {"dtype": dt, "family": name, "n": n, "layout": layout}


def dtypes(case, ctx):
    base = G.make(case["family"], case["n"])
    dt = np.dtype(case["dtype"])
    if dt.kind in "iu":
        info = np.iinfo(dt)
        lo, hi = (0 if dt.kind == "u" else -100), 100
        span = max(base.max() - base.min(), 1e-9)
        base = np.round(lo + (base - base.min()) / span * (hi - lo))
        if case["layout"] == "plain" and dt.itemsize <= 4:  # use the full range of the type
            base = np.round(float(info.min) + (base - lo) / (hi - lo) * (float(info.max) - float(info.min)))
            base = np.clip(base, info.min, info.max)
    S = base.astype(dt)
    if case["layout"] == "strided":
        buf = np.zeros((len(S), 3), dtype=dt)
        buf[:, 1] = S
        S = buf[:, 1]
    elif case["layout"] == "reversed":
        S = S[::-1]
    elif case["layout"] == "readonly":
        S.setflags(write=False)
    elif case["layout"] == "swapped":
        S = S.astype(dt.newbyteorder())
    for det in DETS:
        for T in (None, np.arange(len(S)) * 2 + 1, np.linspace(0, 1, len(S))):
            run(ctx, S, T, dict(extrema_detection=det), -1, "%s det=%s" % (case, det))


TDTYPES = ("float32", "float64", "int16", "int32", "int64", "uint8", "uint32", "longdouble")


def axis_type_cases(ns):
    for dt, tdt, n, name in itertools.product(DTYPES, TDTYPES, ns, ("noise", "walk", "two_tones", "quantised", "edge_burst", "alternating")):
        yield {"dtype": dt, "time dtype": tdt, "n": n, "family": name}


def axis_types(case, ctx):
    """Signal and time axis of different number types."""
    base = G.make(case["family"], case["n"])
    dt = np.dtype(case["dtype"])
    if dt.kind in "iu":
        top = min(float(np.iinfo(dt).max), 2.0**40)
        lo = 0.0 if dt.kind == "u" else -top
        base = np.clip(np.round(lo + (base - base.min()) / max(np.ptp(base), 1e-9) * (top - lo)), lo, top * (1 - 1e-9))
    S = base.astype(dt)
    k = np.arange(len(S))
    for T in (k, k * 3 + 5):
        T = T.astype(case["time dtype"])
        for kw in (dict(extrema_detection="parabol", FIXE=2), dict(extrema_detection="simple", FIXE=2), dict(extrema_detection="parabol", MAX_ITERATION=8)):
            run(ctx, S, T, kw, -1, "%s %s" % (case, kw))


def long_cases(ns):
    for n, name, i in itertools.product(ns, ("tone", "chirp", "noise", "walk", "quantised", "two_tones", "three_tones_trend", "square", "edge_burst"), range(8)):
        yield {"family": name, "n": n, "cfg": i}


def longs(case, ctx):
    """Many samples, many extrema, many components."""
    S = G.make(case["family"], case["n"])
    kw, max_imf = ((dict(FIXE=1), -1), (dict(FIXE=2, extrema_detection="parabol"), -1), (dict(FIXE=1, spline_kind="akima"), 3), (dict(MAX_ITERATION=6), -1),
                   (dict(FIXE=1, spline_kind="pchip", nbsym=30), -1), (dict(FIXE_H=1, MAX_ITERATION=6), 20), (dict(FIXE=1, spline_kind="cubic_hermite", extrema_detection="parabol"), 2),
                   (dict(FIXE=1, spline_kind="slinear", nbsym=5), -1))[case["cfg"]]
    run(ctx, S, None, kw, max_imf, "%s %s max_imf=%d" % (case, kw, max_imf))


class C01(core.Check):
    id = "C01"
    technique = "bounded exhaustive exploration of input words x configurations on the real code, reconstruction invariant"
    level_note = "Every signal word over small alphabets up to length 7 (quick) / 8 (thorough) and every member of 20+ signal families x amplitudes x dtypes x layouts, under the listed configuration products; says nothing about values outside these alphabets."
    preload = ("PyEMD",)
    assumptions = ["signals have at least two samples and finite values of magnitude below 1e12",
                   "time positions are strictly increasing", "nbsym >= 1, MAX_ITERATION >= 2 (or a component limit)",
                   "float16 is excluded: the linear solver used for three-point splines does not support it"]

    def spaces(self, tier):
        q = tier == "quick"
        ns = (3, 5, 9, 20, 64, 200) if q else (3, 4, 5, 6, 7, 9, 14, 20, 33, 64, 127, 200, 512, 1500)
        amps = (1.0, 1e-9, 1e-8, 1e-7, 1e-5, 1e-3, 0.1, 50.0, 1e6)
        return [
            core.Space("words-all-configs", lambda: word_cases([((0, 1), 2), ((-1, 0, 2), 3), ((-1, 0, 2), 4)] + ([((0, 1, -2), 5)] if q else [((-1, 0, 2), 5), ((0, 1), 8), ((-1, 0, 2), 6)])),
                       words_all_configs, "every word; 2 detections x 7 splines x nbsym 1..3 x 6 stopping rules"),
            core.Space("words-main-configs", lambda: word_cases([((-1, 0, 2), 5), ((-1, 0, 2), 6), ((-1, 0, 2), 7)] if q else [((-1, 0, 1, 2), 5), ((-1, 0, 2), 7), ((-1, 0, 1, 3), 6), ((-1, 0, 2), 8)]),
                       words_main_configs, "every word; 7 detection/spline/nbsym combinations x max_imf in {-1,1,2}"),
            core.Space("families", lambda: family_cases(ns, amps, tier), families,
                       "%d signal families x lengths %s x amplitudes %s x 2x4x3 configurations x time axis/component limit" % (len(G.FAMILIES), ns, amps)),
            core.Space("thresholds", lambda: thr_cases(ns[:5] if q else ns, (1.0, 1e-4, 20.0)), thresholds,
                       "threshold settings x families x lengths x detections x max_imf in {-1,1,3}"),
            core.Space("dtypes", lambda: dtype_cases((5, 40) if q else (3, 5, 17, 40, 300)), dtypes,
                       "10 dtypes x 5 memory layouts x families x time axes"),
            core.Space("axis-types", lambda: axis_type_cases((12, 60) if q else (5, 12, 33, 60)), axis_types, "10 signal dtypes x 7 time dtypes x families"),
            core.Space("long", lambda: long_cases((1000, 5000) if q else (1000, 3000, 5000, 33000, 70000)), longs, "long signals x 8 configurations", block=1),
        ]


CHECK = C01()
