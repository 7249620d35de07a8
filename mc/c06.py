"""C06: sifting follows the configured stopping rules."""
import itertools

import numpy as np

from mc import core, ref_emd as E, signals as G

STOPS = (
    {}, {"FIXE": 1}, {"FIXE": 2}, {"FIXE": 3}, {"FIXE": 7}, {"FIXE_H": 1}, {"FIXE_H": 2}, {"FIXE_H": 4},
    {"FIXE": 2, "FIXE_H": 5}, {"FIXE": 4, "FIXE_H": 1}, {"MAX_ITERATION": 2}, {"MAX_ITERATION": 3}, {"MAX_ITERATION": 6},
    {"FIXE": 5, "MAX_ITERATION": 4}, {"FIXE": 4, "MAX_ITERATION": 5}, {"FIXE_H": 3, "MAX_ITERATION": 4},
    {"svar_thr": 0.0, "std_thr": 0.0, "MAX_ITERATION": 40}, {"std_thr": 0.0, "energy_ratio_thr": 0.0, "MAX_ITERATION": 40},
    {"svar_thr": 0.0, "energy_ratio_thr": 0.0, "MAX_ITERATION": 40}, {"svar_thr": 0.0, "std_thr": 0.0, "energy_ratio_thr": 1e-3, "MAX_ITERATION": 60},
    {"svar_thr": 1e-6, "std_thr": 0.0, "energy_ratio_thr": 0.0, "MAX_ITERATION": 60}, {"svar_thr": 0.0, "std_thr": 50.0, "energy_ratio_thr": 0.0, "MAX_ITERATION": 60},
    {"svar_thr": 10.0}, {"energy_ratio_thr": 0.9}, {"range_thr": 0.7}, {"total_power_thr": 3.0}, {"range_thr": 1e-9, "total_power_thr": 1e-9, "MAX_ITERATION": 60},
    {"range_thr": 1e-12, "total_power_thr": 4.0}, {"range_thr": 0.9, "total_power_thr": 1e-12},
)


def judge(ctx, S, T, kw, max_imf, blocks, what):
    from PyEMD import EMD

    e = EMD(**kw)
    e.emd(S, None if T is None else T.copy(), max_imf=max_imf)
    imfs, res = e.get_imfs_and_residue()
    ctx.step()
    T0 = np.arange(len(S), dtype=float) if T is None else T
    v, counts = E.verdict(np.asarray(imfs, float), np.asarray(res, float), S, T0, kw, lambda: blocks(**kw), max_imf)
    ctx.step(sum(counts))
    if v == "ok":
        ctx.validate()
        ctx.state(tuple(sorted(kw.items())), tuple(counts), len(S), np.round(S, 6).tobytes())
    elif v == "knife-edge":
        ctx.skip()
    else:
        ctx.fail("%s %s max_imf=%d: %s" % (what, kw, max_imf, v))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def words(case, ctx):
    S = np.array(case["word"], float)
    for stop in STOPS:
        judge(ctx, S, None, dict(stop), -1, E.ImplBlocks, "S=%s" % case["word"])
    for stop in STOPS[:6]:
        judge(ctx, S, G.SHORT_T["uneven"](len(S)), dict(stop, extrema_detection="parabol", MAX_ITERATION=60), 2, E.ImplBlocks, "S=%s" % case["word"])


def fam_cases(ns, amps):
    for n, name, amp, i in itertools.product(ns, G.FAMILIES, amps, range(len(STOPS))):
        yield {"family": name, "n": n, "amp": amp, "stop": i}


def fams(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    stop = STOPS[case["stop"]]
    cap = {} if stop.get("MAX_ITERATION") or stop.get("FIXE") else {"MAX_ITERATION": 120}
    judge(ctx, S, None, dict(stop), -1, E.ImplBlocks, str(case))
    judge(ctx, S, None, dict(stop), 2, E.ImplBlocks, str(case))
    judge(ctx, S, G.SHORT_T["uneven"](len(S)), dict(stop, extrema_detection="parabol", **cap), -1, E.ImplBlocks, str(case))
    for kind in ("akima", "slinear"):
        judge(ctx, S, None, dict(stop, spline_kind=kind, nbsym=1, **cap), 3, E.ImplBlocks, str(case))


LONG = ({"FIXE": 1}, {"FIXE": 12}, {"FIXE_H": 1, "MAX_ITERATION": 60}, {"FIXE_H": 6, "MAX_ITERATION": 60}, {"MAX_ITERATION": 25}, {"FIXE": 3, "FIXE_H": 2, "range_thr": 0.3})


def long_cases(ns):
    for n, name, i in itertools.product(ns, ("noise", "walk", "three_tones_trend", "chirp", "am", "quantised", "offset_tone"), range(len(LONG))):
        yield {"family": name, "n": n, "stop": i}


def long(case, ctx):
    S = G.make(case["family"], case["n"])
    stop = LONG[case["stop"]]
    judge(ctx, S, None, dict(stop), -1, E.ImplBlocks, str(case))
    judge(ctx, S, G.SHORT_T["uneven"](len(S)), dict(stop, extrema_detection="parabol", spline_kind="akima"), 4, E.ImplBlocks, str(case))


DEEP = (("noise", 90, "slinear", 40), ("noise", 180, "pchip", 40), ("noise", 260, "pchip", 40), ("quantised", 260, "pchip", 40), ("am", 180, "pchip", 40), ("noise", 1500, "pchip", 10), ("walk", 1500, "pchip", 10))


def deep_cases(thrs, powers, limits):
    for name, n, kind, fixe in DEEP:
        for kw in [{"range_thr": r, "total_power_thr": 0.0} for r in thrs] + [{"range_thr": 0.0, "total_power_thr": p} for p in powers]:
            yield {"family": name, "n": n, "kw": dict(kw, spline_kind=kind, FIXE=fixe), "limit": -1}
        for k in limits:
            yield {"family": name, "n": n, "kw": {"range_thr": 0.0, "total_power_thr": 0.0, "spline_kind": kind, "FIXE": fixe}, "limit": k}


def deep(case, ctx):
    """Decompositions into more than a dozen components, ended by each rule at different depths."""
    judge(ctx, G.make(case["family"], case["n"]), None, dict(case["kw"]), case["limit"], E.ImplBlocks, str(case))


def end_to_end_cases(ns):
    for n, name, kind in itertools.product(ns, G.FAMILIES, ("cubic", "akima", "pchip", "cubic_hermite", "slinear", "quadratic")):
        yield {"family": name, "n": n, "kind": kind}


def end_to_end(case, ctx):
    """The whole decomposition against a model that shares no code with the implementation."""
    S = G.make(case["family"], case["n"])
    for stop in ({}, {"FIXE": 1}, {"FIXE": 3}, {"FIXE_H": 2}, {"MAX_ITERATION": 5}):
        for det, T, nb in (("simple", None, 2), ("parabol", None, 1), ("parabol", G.SHORT_T["uneven"](len(S)), 3)):
            kw = dict({"MAX_ITERATION": 40}, **stop)
            kw.update(spline_kind=case["kind"], extrema_detection=det, nbsym=nb)
            judge(ctx, S, T, kw, -1, E.RefBlocks, "end to end %s" % case)


def unit_cases(n, alphabet):
    for old in G.tuples(alphabet, n):
        yield {"old": list(old)}


def near(v, thr):
    return abs(v - thr) <= 1e-9 * max(abs(thr), 1e-12)


def unit(case, ctx):
    """check_imf on every pair of proto-modes, each threshold isolated."""
    from PyEMD import EMD

    if not hasattr(EMD, "check_imf"):
        return
    old = np.array(case["old"], float)
    n = len(old)
    if old.max() == old.min() or not old.any():
        return
    for w in itertools.product((0.5, -1.0, 1.5), repeat=n):
        for f in (1.0, 1e-2, 1e-6):
            new = np.array(w) * f if f == 1e-6 else old + np.array(w) * f
            d = new - old
            if not np.all(new):
                continue
            vals = (np.sum(d**2) / (old.max() - old.min()), np.sum((d / new) ** 2), np.sum(d**2) / np.sum(old**2))
            for thrs in ((0.3, 0, 0), (0, 0.3, 0), (0, 0, 0.3), (0.01, 0.01, 0.01), (0, 0, 0)):
                c = dict(svar_thr=thrs[0], std_thr=thrs[1], energy_ratio_thr=thrs[2])
                if any(near(v, t) for v, t in zip(vals, thrs) if t):
                    ctx.skip()
                    continue
                for vmax, vmin in (([1.0, 0.0], [0.0, -1.0]), ([1.0, -0.1], [-1.0, -1.0]), ([1.0, 2.0], [0.1, -1.0])):
                    emax, emin = np.array([[0.0, 1.0], vmax]), np.array([[0.0, 1.0], vmin])
                    with np.errstate(all="ignore"):
                        got = bool(EMD(**c).check_imf(new, old, emax, emin))
                    want = E.is_imf(new, old, emax[1], emin[1], c)
                    ctx.step()
                    ctx.require(got == want, lambda: "check_imf(new=%s, old=%s, maxima=%s, minima=%s, %s) is %s" % (new.tolist(), old.tolist(), vmax, vmin, c, got))
    ctx.validate()
    ctx.state(case["old"])


def end_cases(n, alphabet):
    for w in G.tuples(alphabet, n):
        yield {"word": list(w)}


def ends(case, ctx):
    """end_condition on every residual word, spread over a varying number of rows."""
    from PyEMD import EMD

    if not hasattr(EMD, "end_condition"):
        return
    rest = np.array(case["word"], float)
    n = len(rest)
    for rows in (1, 2, 4, 9, 17, 40):
        IMF = np.array([G.lcg(n, r + 1) * 8 for r in range(rows)])
        S = rest + IMF.sum(axis=0)
        for thr in (1e-3, 0.53, 1.37, 2.77, 4.93):
            for c in (dict(range_thr=thr, total_power_thr=0.0), dict(range_thr=0.0, total_power_thr=thr), dict(range_thr=thr, total_power_thr=thr), dict(range_thr=thr / 4, total_power_thr=thr)):
                got = bool(EMD(**c).end_condition(S, IMF))
                ctx.step()
                ctx.require(got == E.ended(rest, c), lambda: "end_condition with residual %s and %s is %s" % (case["word"], c, got))
    ctx.validate()
    ctx.state(case["word"])


class C06(core.Check):
    id = "C06"
    preload = ("PyEMD", "scipy.interpolate")
    technique = "reference state machine of the sifting loop run in lockstep over every word/family x stopping configuration; rounding-perturbed model variants identify undetermined inputs"
    level_note = "28 stopping configurations x all words over 3 letters to length 6 (7 thorough) and 21 families; model traces (sifting counts and rows) must equal the implementation's components; inputs on which perturbed models disagree are counted, not judged."
    assumptions = ["envelope building blocks are the implementation's own (decided by C03-C05), except in the end-to-end space", "inputs on a rounding knife edge are not judged when implementation and model differ"]

    def spaces(self, tier):
        q = tier == "quick"
        W = [((-1, 0, 2), 3), ((-1, 0, 2), 4), ((-1, 0, 2), 5)] + ([((-1, 0, 2), 6), ((0, 1), 9)] if q else [((-1, 0, 2), 6), ((0, 1), 12), ((-1, 0, 2), 7), ((-1, 0, 2), 8)])
        ns = (6, 10, 24, 80) if q else (5, 6, 8, 10, 16, 24, 40, 80, 200, 500)
        return [
            core.Space("check-imf", lambda: unit_cases(3 if q else 4, (-1, 0.5, 2)), unit, "proto-mode pairs x isolated thresholds"),
            core.Space("end-condition", lambda: end_cases(4 if q else 6, (0, 0.2, -0.6, 1.1)), ends, "residual words x thresholds x number of rows"),
            core.Space("words", lambda: word_cases(W), words, "every word x 28 stopping rules"),
            core.Space("families", lambda: fam_cases(ns, (1.0, 1e-2, 20.0)), fams, "families x lengths %s x amplitudes x 28 stopping rules x detections, splines and limits" % (ns,)),
            core.Space("long", lambda: long_cases((300, 1100) if q else (200, 300, 600, 1100, 3000)), long, "longer signals x 6 stopping rules x detections", timeout=300),
            core.Space("deep", lambda: deep_cases((0.5, 0.1, 0.02) if q else (1.0, 0.7, 0.5, 0.3, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003), (60.0, 15.0, 3.0) if q else (200.0, 100.0, 60.0, 30.0, 15.0, 7.0, 3.0, 1.0), (-1, 9, 12, 13, 14, 17, 20) if q else tuple(range(1, 36))), deep, "decompositions into many components", timeout=300),
            core.Space("end-to-end", lambda: end_to_end_cases((8, 16, 40) if q else (5, 8, 12, 16, 25, 40, 90)), end_to_end, "independent model of the whole decomposition"),
        ]


CHECK = C06()
