"""C13: the white-noise significance test decides by the Wu-Huang bounds."""
import itertools
import math
from statistics import NormalDist

import numpy as np

from mc import core, ref_extrema as R, signals as G


def features(row):
    """(log mean period, log energy density) by plain loops."""
    s = [float(v) for v in row]
    n = len(s)
    peaks = sum(1 for a, b, k in R.turns(s) if k > 0 and s[a] >= 0)
    period = n / peaks if peaks else n
    return math.log(period), math.log(math.fsum(v * v for v in s) / n)


def half_band(logT, n, alpha):
    k = NormalDist().inv_cdf(0.5 + alpha / 2)
    return k * math.sqrt(2.0 / n) * math.exp(logT / 2)


def reference(rows, test, rescale, alpha):
    """[(answer, distance to the nearest bound)]"""
    n = len(rows[0])
    f = [features(r) for r in rows]
    out = []
    if test == "apriori":
        for t, e in f:
            h = half_band(t, n, alpha)
            out.append((int(abs(e + t) > h), abs(abs(e + t) - h)))
        return out
    t0, e0 = f[rescale - 1]
    shift = -t0 + half_band(t0, n, alpha) - e0
    for i, (t, e) in enumerate(f):
        up = -t + half_band(t, n, alpha)
        d = e + shift - up
        out.append((0, 1.0) if i == rescale - 1 else (int(d > 0), abs(d)))
    return out


def judge(ctx, rows, what, alphas=(0.5, 0.9, 0.95, 0.99), rescales=None):
    from PyEMD.checks import whitenoise_check

    rows = np.array(rows, float)
    keep = rows.copy()
    for alpha in alphas:
        for test, rs in [("apriori", 1)] + [("aposteriori", r) for r in (rescales or range(1, len(rows) + 1))]:
            got = whitenoise_check(rows, test_name=test, rescaling_imf=rs, alpha=alpha)
            ctx.step()
            w = "%s %s rescaling=%d alpha=%g" % (what, test, rs, alpha)
            ctx.require(isinstance(got, dict) and list(sorted(got)) == list(range(1, len(rows) + 1)), lambda: "%s: keys %r" % (w, got))
            ctx.require(all(v in (0, 1) for v in got.values()), lambda: "%s: values %r" % (w, got))
            for i, (a, d) in enumerate(reference(rows, test, rs, alpha)):
                if d < 1e-9:
                    ctx.skip()
                    continue
                ctx.require(got[i + 1] == a, lambda: "%s: component %d is %d, expected %d (distance %.3g from the bound)" % (w, i + 1, got[i + 1], a, d))
            if test == "aposteriori":
                ctx.require(got[rs] == 0, lambda: "%s: the rescaling component is reported significant" % w)
            ctx.state(test, rs, alpha, tuple(sorted(got.items())), len(rows[0]), what if len(what) < 80 else what[:80])
            ctx.validate()
    ctx.require(np.array_equal(rows, keep), lambda: what + ": components modified")


def word_cases(n, alphabet):
    for w in G.tuples(alphabet, n):
        if any(w):
            yield {"word": list(w)}


def singles(case, ctx):
    judge(ctx, [case["word"]], "rows=[%s]" % case["word"])


def pair_cases(bank):
    for a, b in itertools.product(bank, repeat=2):
        yield {"rows": [list(a), list(b)]}


def triple_cases(bank):
    for t in itertools.product(bank, repeat=3):
        yield {"rows": [list(r) for r in t]}


def multi(case, ctx):
    judge(ctx, case["rows"], "rows=%s" % case["rows"], alphas=(0.6, 0.95))
    from PyEMD.checks import whitenoise_check

    rows = np.array(case["rows"], float)
    base = whitenoise_check(rows, rescaling_imf=1)
    if min(d for _, d in reference(rows, "aposteriori", 1, 0.95)) < 1e-9:
        return ctx.skip()
    for c in (0.5, 4.0, 1e-3, 77.0, 1e-60, 1e60):
        ctx.require(whitenoise_check(rows * c, rescaling_imf=1) == base, lambda: "%s: a common factor %g changes the a posteriori answer" % (case, c))
        ctx.step()


SHAPES = ("tone", "two_tones", "noise", "walk", "impulses", "square", "alternating", "ramp", "saw", "quantised", "edge_burst", "parabola")


def edge_cases(ns, alphas):
    for f, n, a in itertools.product(SHAPES, ns, alphas):
        yield {"shape": f, "n": n, "alpha": a}


def edges(case, ctx):
    """Amplitudes placed just inside and just outside each bound."""
    r = G.make(case["shape"], case["n"])
    n, alpha = len(r), case["alpha"]
    if not np.any(r):
        return
    t, e = features(r)
    h = half_band(t, n, alpha)
    other = [G.make("noise", n), 0.2 * G.make("tone", n) + 0.01]
    t0, e0 = features(other[0])
    for delta in (1e-6, 1e-3, 0.3, 3.0):
        for bound in (-t - h, -t + h):
            for sgn in (-1, 1):
                row = r * math.exp((bound + sgn * delta - e) / 2)
                judge(ctx, [row] + other, "%s delta=%g" % (case, sgn * delta), alphas=(alpha,), rescales=(2, 3))
        # a posteriori: relative to the rescaling component
        target = -t + h - (-t0 + half_band(t0, n, alpha) - e0)
        for sgn in (-1, 1):
            row = r * math.exp((target + sgn * delta - e) / 2)
            judge(ctx, [other[0], row, other[1]], "%s posteriori delta=%g" % (case, sgn * delta), alphas=(alpha,), rescales=(1,))


def fam_cases(ns):
    for n in ns:
        for f in SHAPES:
            yield {"family": f, "n": n}


def decomposed(case, ctx):
    """Components of real decompositions, all rescaling choices, and order independence."""
    from PyEMD import EMD
    from PyEMD.checks import whitenoise_check

    rows = EMD(MAX_ITERATION=40).emd(G.make(case["family"], case["n"]))
    rows = rows[[i for i in range(len(rows)) if np.sum(rows[i] ** 2) > 1e-20]]
    if not len(rows):
        return
    judge(ctx, rows, str(case), alphas=(0.05, 0.5, 0.95, 0.999))
    base = whitenoise_check(rows, rescaling_imf=1)
    base0 = whitenoise_check(rows, "apriori")
    for perm in itertools.islice(itertools.permutations(range(1, len(rows))), 24):
        p = (0,) + perm
        got = whitenoise_check(rows[list(p)], rescaling_imf=1)
        got0 = whitenoise_check(rows[list(p)], "apriori")
        ctx.step(2)
        ctx.require(all(got[i + 1] == base[j + 1] and got0[i + 1] == base0[j + 1] for i, j in enumerate(p)), lambda: "%s: the order of the components changes the answer" % case)
    ctx.require(whitenoise_check(rows) == whitenoise_check(rows, test_name="aposteriori", rescaling_imf=1, alpha=0.95), lambda: "%s: defaults" % case)
    for c in (2.0**-10, 2.0**10):
        ctx.require(whitenoise_check(rows * c) == whitenoise_check(rows) or min(d for _, d in reference(rows, "aposteriori", 1, 0.95)) < 1e-9, lambda: "%s: a common factor changes the a posteriori answer" % case)


def many_cases(ns, ks):
    for n, k, first in itertools.product(ns, ks, range(4)):
        yield {"n": n, "rows": k, "first": first}


def many(case, ctx):
    """Many components and long ones."""
    names = [f for f in SHAPES if f != "ramp"]
    rows = [G.make(names[(case["first"] * 3 + i) % len(names)], case["n"]) * 10.0 ** (((i * 7 + case["first"]) % 5) - 3) for i in range(case["rows"])]
    judge(ctx, rows, str(case), alphas=(0.4, 0.95), rescales=(1, 2, case["rows"]))
    judge(ctx, np.array(rows)[:, ::-1], str(case) + " reversed in time (a view)", alphas=(0.95,), rescales=(1,))


def special_cases():
    ok = [[1.0, -1, 1, -1], [0.5, 1, 0.5, 0]]
    for name in ("list", "none", "number", "string", "alpha0", "alpha1", "alpha2", "alpha-", "alphaint", "alphastr", "alphanone", "name", "nameNone", "Name", "rs0", "rs3", "rs-1", "rsfloat", "rsstr",
                 "empty", "empty-rows", "nan", "nan-one", "nan-last", "good"):
        yield {"what": name}


def special(case, ctx):
    from PyEMD.checks import whitenoise_check

    X = np.array([[1.0, -1, 1, -1], [0.5, 1, 0.5, 0]])
    nan1, nanl = X.copy(), X.copy()
    nan1[0, 0] = np.nan
    nanl[1, 3] = np.nan
    args = {
        "list": ((X.tolist(),), {}), "none": ((None,), {}), "number": ((3.0,), {}), "string": (("x",), {}),
        "alpha0": ((X,), {"alpha": 0.0}), "alpha1": ((X,), {"alpha": 1.0}), "alpha2": ((X,), {"alpha": 1.5}), "alpha-": ((X,), {"alpha": -0.1}), "alphaint": ((X,), {"alpha": 1}), "alphastr": ((X,), {"alpha": "0.9"}), "alphanone": ((X,), {"alpha": None}),
        "name": ((X,), {"test_name": "apri"}), "nameNone": ((X,), {"test_name": None}), "Name": ((X,), {"test_name": "both"}),
        "rs0": ((X,), {"rescaling_imf": 0}), "rs3": ((X,), {"rescaling_imf": 3}), "rs-1": ((X,), {"rescaling_imf": -1}), "rsfloat": ((X,), {"rescaling_imf": 1.0}), "rsstr": ((X,), {"rescaling_imf": "1"}),
        "empty": ((np.array([]),), {}), "empty-rows": ((np.empty((3, 0)),), {}), "nan": ((np.full((2, 4), np.nan),), {}), "nan-one": ((nan1,), {}), "nan-last": ((nanl,), {"test_name": "apriori"}), "good": ((X,), {}),
    }[case["what"]]
    ctx.step()
    ctx.state(case["what"])
    try:
        r = whitenoise_check(*args[0], **args[1])
    except AssertionError:
        ctx.require(not case["what"].startswith(("empty", "nan", "good")), "%s raised AssertionError" % case)
        return
    if case["what"].startswith(("empty", "nan")):
        ctx.require(r is None, lambda: "%s gives %r" % (case, r))
    else:
        ctx.require(case["what"] == "good" and isinstance(r, dict), lambda: "%s accepted: %r" % (case, r))


class C13(core.Check):
    id = "C13"
    preload = ("PyEMD", "PyEMD.checks")
    technique = "exhaustive enumeration of component words, row combinations, rescaling choices and levels against an independent reference decision, with amplitudes placed on both sides of every bound"
    level_note = "All non-zero 4-letter words to length 6 (7 thorough), all pairs (and triples) from a bank, 12 shapes x lengths x levels with energies 1e-6..3 on either side of each bound; decisions closer than 1e-9 to a bound are not judged."
    assumptions = ["components have non-zero energy and are floating point", "mean period is length over the number of non-negative peaks, as documented by mean_period"]

    def spaces(self, tier):
        q = tier == "quick"
        bank = [w for w in G.tuples((-1, 0, 2), 4) if any(w)]
        bank3 = [(1, -1, 1, -1, 1), (0, 2, 0, -2, 0), (3, 1, 2, 0, 1), (0.1, -0.1, 0.2, 0, 0), (1, 2, 3, 4, 5), (-1, -2, -1, -2, -1), (0, 5, 5, 0, -1)]
        return [
            core.Space("arguments", special_cases, special, "invalid, empty and NaN arguments"),
            core.Space("single", lambda: itertools.chain(*(word_cases(n, (-1, 0, 0.5, 2)) for n in ((2, 3, 4, 5, 6) if q else (2, 3, 4, 5, 6, 7)))), singles, "every word as the only component", block=8),
            core.Space("pairs", lambda: pair_cases(bank), multi, "every pair of words", block=8),
            core.Space("triples", lambda: triple_cases(bank3), multi, "every triple from a bank", block=4),
            core.Space("bounds", lambda: edge_cases((8, 33, 120) if q else (5, 8, 16, 33, 64, 120, 500), (0.3, 0.9, 0.95, 0.99)), edges, "shapes x lengths x levels x distances from each bound"),
            core.Space("many", lambda: many_cases((30, 201, 256, 1000, 4000), (2, 3, 9, 12, 25)), many, "up to 25 components of up to 4000 samples"),
            core.Space("decomposed", lambda: fam_cases((20, 60, 150) if q else (10, 20, 40, 60, 90, 150, 400)), decomposed, "components of real decompositions, permutations, scaling"),
        ]


CHECK = C13()
