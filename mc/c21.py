"""C21: decompositions commute with the symmetries of the problem."""
import itertools
import logging

import numpy as np

from mc import core, fakes, ref_emd as E, signals as G

CFGS = (
    dict(), dict(FIXE=1), dict(FIXE=3), dict(FIXE_H=2, MAX_ITERATION=40), dict(MAX_ITERATION=5), dict(extrema_detection="parabol", FIXE=2), dict(extrema_detection="parabol", MAX_ITERATION=30, spline_kind="akima", nbsym=1),
    dict(FIXE=2, spline_kind="pchip", nbsym=3), dict(FIXE=2, spline_kind="quadratic", nbsym=1), dict(MAX_ITERATION=25, spline_kind="slinear"), dict(FIXE=2, spline_kind="cubic_hermite", extrema_detection="parabol"),
)
FREE = dict(range_thr=0.0, total_power_thr=0.0)  # no threshold compares with an absolute amplitude


def run(S, T, kw, k):
    from PyEMD import EMD

    e = EMD(**kw)
    e.emd(S, T, k)
    a, b = e.get_imfs_and_residue()
    return np.asarray(a, float), np.asarray(b, float)


def settled(S, T, kw, k):
    """Whether rounding-perturbed runs of the sifting model agree on this input."""
    T = np.arange(len(S), dtype=float) if T is None else T
    mi, _, counts = E.decompose(S, T, kw, E.ImplBlocks(**kw), k)
    tol = 1e-8 * max(1e-300, np.max(np.abs(S)))
    for j in range(1, 17):
        vi, _, vc = E.decompose(S, T, kw, E.ImplBlocks(**kw), k, jiggle=j)
        if vc != counts or not E.agree(vi, mi, tol):
            return False
    return True


def compare(ctx, got, want, S, T, kw, k, what, other=None):
    scale = max(1e-300, np.max(np.abs(S)), np.max(np.abs(want[0])) if want[0].size else 0, np.max(np.abs(want[1])))
    ctx.step(2)
    live = lambda r: (np.array([x for x in r[0] if np.max(np.abs(x)) > 1e-9 * scale]), r[1])  # rounding-level rows come and go
    got, want = live(got), live(want)
    if all(E.agree(a, b, 1e-7 * scale) for a, b in zip(got, want)):
        ctx.validate()
        return
    if not settled(S, T, kw, k) or (other is not None and not settled(other, T, kw, k)):
        ctx.skip()
        return
    ctx.fail("%s %s max_imf=%d: %d components against %d%s" % (what, kw, k, len(got[0]), len(want[0]), "" if len(got[0]) != len(want[0]) else ", largest difference %g" % max(np.max(np.abs(a - b)) for a, b in zip(got, want))))


def symmetries(ctx, S, what, ks=(-1,)):
    n = len(S)
    distinct = n < 2 or np.min(np.abs(np.diff(S))) > 1e-6 * np.max(np.abs(S))
    for kw, k in itertools.product(CFGS, ks):
        for T in (None, G.SHORT_T["uneven"](n)) if kw.get("extrema_detection") == "parabol" else (None,):
            base = run(S, T, kw, k)
            m = run(-S, T, kw, k)
            compare(ctx, (-m[0], -m[1]), base, S, T, kw, k, what + " negated")
            if distinct:
                back = None if T is None else T[-1] + T[0] - T[::-1]
                m = run(S[::-1].copy(), back, kw, k)
                compare(ctx, (m[0][:, ::-1], m[1][::-1]), base, S, T, kw, k, what + " reversed")
            if kw.get("FIXE"):
                free = dict(kw, **FREE)
                base = run(S, T, free, 3)
                for c in (4.0, 2.0**-20, 3.0, 1e3, 2.0**-70, 2.0**60):
                    m = run(c * S, T, free, 3)
                    compare(ctx, (m[0] / c, m[1] / c), base, S, T, free, 3, what + " scaled by %g" % c, c * S)
                for d in (8.0, -100.0):
                    if distinct:
                        m = run(S + d, T, free, 2)
                        compare(ctx, (m[0], m[1] - d), run(S, T, free, 2), S + d, T, free, 2, what + " shifted by %g" % d, S)
    ctx.state(what)


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            if any(w):
                yield {"word": list(w)}


def words(case, ctx):
    symmetries(ctx, np.array(case["word"], float), "S=%s" % case["word"])


def fam_cases(ns):
    for n, name in itertools.product(ns, G.FAMILIES):
        if name != "zero":
            yield {"family": name, "n": n}


def fams(case, ctx):
    symmetries(ctx, G.make(case["family"], case["n"]), str(case), (-1, 2))


def matlab_run(S, cfg, k):
    from PyEMD.EMD_matlab import EMD

    e = EMD()
    for a, b in cfg.items():
        setattr(e, a, b)
    I, X, N, n = e.emd(e, S, None, k)
    return np.array([I[i] for i in range(n)]), [X[i] for i in range(n)], [N[i] for i in range(n)]


def matlab(case, ctx):
    from mc import c17

    S = G.make(case["family"], case["n"]) if "family" in case else np.array(case["word"], float)
    for cfg in ({}, {"FIXE": 2}, {"FIXE_H": 2, "maxIteration": 40}, {"splineKind": "akima", "maxIteration": 20, "nbsym": 1}):
        for k in (-1, 2):
            base = matlab_run(S, cfg, k)
            for name, c in (("negated", -1.0), ("scaled", 4.0), ("scaled", 2.0**-12), ("scaled", 2.0**-50)):
                m = matlab_run(c * S, cfg, k)
                ctx.step(2)
                ref = base
                if len(m[0]) == len(base[0]) - 1 and np.sum(np.abs(c * base[0][-1])) <= 1.01e-10:  # a remainder below 1e-10 is dropped
                    ref = tuple(v[:-1] for v in base)
                if E.agree(m[0] / c, ref[0], 1e-7 * max(np.max(np.abs(S)), np.max(np.abs(base[0])))) and m[1:] == ref[1:]:
                    ctx.validate()
                    continue
                refs = [c17.model(S, np.arange(len(S), dtype=float), cfg, c17.Impl(cfg), k, jiggle=j) for j in range(9)]
                if any(r is None or [x[1] for x in r[0]] != [x[1] for x in refs[0][0]] or max(np.max(np.abs(x[0] - y[0])) for x, y in zip(r[0], refs[0][0])) > 1e-8 * np.max(np.abs(S)) for r in refs):
                    ctx.skip()
                    continue
                ctx.fail("MATLAB-style %s %s max_imf=%d: components, extrema or iterations of the %s signal differ" % (case, cfg, k, name))
    ctx.state(str(case))


def ens_cases(sigs, trials):
    for cls, s, t, i in itertools.product(("EEMD", "CEEMDAN"), sigs, trials, range(4)):
        yield {"class": cls, "signal": s, "trials": t, "cfg": i}


ENS = (dict(FIXE=2), dict(FIXE=1, extrema_detection="parabol"), dict(FIXE=3, spline_kind="akima", nbsym=1), dict(FIXE_H=1, MAX_ITERATION=12))


def ens_run(cls, S, units, kw, k):
    import PyEMD

    own = {"noise_width": 0.2} if cls == "EEMD" else {"epsilon": 0.1}
    e = getattr(PyEMD, cls)(trials=len(units), parallel=False, **dict(own, **kw))
    fakes.plant(e, fakes.ScriptedRandom(units))
    out = np.array(e(S, None, k))
    return [out, np.array(e.get_imfs_and_residue()[1])]


def ensembles(case, ctx):
    """Signal and noise negated; signal scaled (the noise follows the signal's amplitude)."""
    name, n = case["signal"].split("/")
    S = G.make(name, int(n))
    cls, kw = case["class"], ENS[case["cfg"]]
    units = [G.lcg(len(S), 60 + i) for i in range(case["trials"])]
    for k in (-1, 2):
        tests = [("negated", -1.0, [-u for u in units], kw)]
        if cls == "CEEMDAN" or kw.get("FIXE"):
            free = dict(kw, **FREE) if cls == "EEMD" else kw
            tests += [("scaled", c, units, free) for c in (4.0, 2.0**-10, 3.0) + ((2.0**-40, 2.0**50) if cls == "CEEMDAN" else ())]
        for what, c, u, cfg in tests:
            if cls == "EEMD" and what == "scaled":
                k = 2
            base = ens_run(cls, S, units, cfg, k)
            m = ens_run(cls, c * S, u, cfg, k)
            ctx.step(2 * len(units))
            size = max(np.max(np.abs(S)), np.max(np.abs(base[0])))
            if all(E.agree(a / c, b, 1e-7 * size) for a, b in zip(m, base)):
                ctx.validate()
                continue
            shaken = [ens_run(cls, S * (1 + 1e-15 * G.lcg(len(S), j)), [v * (1 + 1e-15 * G.lcg(len(S), j + 50)) for v in units], cfg, k) for j in range(1, 9)]
            if not all(E.agree(a, b, 1e-8 * size) for s in shaken for a, b in zip(s, base)):
                ctx.skip()
                continue
            ctx.fail("%s %s %s max_imf=%d: the ensemble of the %s signal differs" % (cls, case, cfg, k, what))
    ctx.state(str(case))


class C21(core.Check):
    id = "C21"
    preload = ("PyEMD", "PyEMD.EMD_matlab", "scipy.interpolate")
    technique = "exhaustive enumeration of signal words and families x configurations; every execution on the real code is compared with the executions on the negated, reversed, scaled and shifted signal"
    level_note = "All words over 3-4 letters to length 6 (7 thorough), 20 families x lengths, 11 configurations of the plain EMD, 4 of the MATLAB-style one, both ensembles with scripted noise. Where the two executions differ and rounding-perturbed runs disagree too, the input is counted, not judged."
    assumptions = ["scaling and shifting: fixed number of siftings, amplitude thresholds off (they compare with absolute values)", "reversal and shifting: neighbouring samples differ (an even flat turn has no exact middle)"]

    def spaces(self, tier):
        logging.disable(logging.CRITICAL)
        q = tier == "quick"
        W = [((-1, 0, 2), n) for n in range(2, 6 if q else 8)] + [((-1, 1, 3, 4), 5 if q else 6), ((0, 1, 3), 6)]
        return [
            core.Space("words", lambda: word_cases(W), words, "every word x 11 configurations x symmetries", block=2),
            core.Space("families", lambda: fam_cases((7, 16, 40, 90) if q else (5, 7, 10, 16, 25, 40, 90, 200)), fams, "families x configurations x symmetries"),
            core.Space("matlab", lambda: itertools.chain(word_cases(W[:-1]), fam_cases((9, 24, 60))), matlab, "MATLAB-style variant"),
            core.Space("ensembles", lambda: ens_cases(("two_tones/24", "noisy_ramp/16", "walk/40", "steps/12", "noise/30"), (1, 2, 4) if q else (1, 2, 3, 4, 8)), ensembles, "both ensembles with scripted noise"),
        ]


CHECK = C21()
