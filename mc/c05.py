"""C05: every spline kind interpolates correctly on every knot sequence."""
import itertools

import numpy as np
import scipy.interpolate as si

from mc import core, signals as G

KINDS = ("cubic", "akima", "pchip", "cubic_hermite", "slinear", "linear", "quadratic")


def natural_cubic(x, y, t):
    """Natural cubic spline by its textbook second-derivative system."""
    n = len(x)
    h = np.diff(x)
    A = np.zeros((n, n))
    r = np.zeros(n)
    A[0, 0] = A[-1, -1] = 1.0
    for i in range(1, n - 1):
        A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        r[i] = 6 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])
    m = np.linalg.solve(A, r)
    j = np.clip(np.searchsorted(x, t, side="right") - 1, 0, n - 2)
    a, b = x[j + 1] - t, t - x[j]
    return (m[j] * a**3 + m[j + 1] * b**3) / (6 * h[j]) + (y[j] / h[j] - m[j] * h[j] / 6) * a + (y[j + 1] / h[j] - m[j + 1] * h[j] / 6) * b


def hermite(x, y, t):
    """Cubic Hermite interpolation with second-order finite-difference slopes (first order at the ends)."""
    n = len(x)
    d = np.empty(n)
    d[0] = (y[1] - y[0]) / (x[1] - x[0])
    d[-1] = (y[-1] - y[-2]) / (x[-1] - x[-2])
    for i in range(1, n - 1):
        hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
        d[i] = (hs**2 * y[i + 1] + (hd**2 - hs**2) * y[i] - hd**2 * y[i - 1]) / (hs * hd * (hd + hs))
    j = np.clip(np.searchsorted(x, t, side="right") - 1, 0, n - 2)
    h = x[j + 1] - x[j]
    u = (t - x[j]) / h
    return ((1 + 2 * u) * (1 - u) ** 2 * y[j] + u * (1 - u) ** 2 * h * d[j] + u**2 * (3 - 2 * u) * y[j + 1] + u**2 * (u - 1) * h * d[j + 1])


def reference(kind, x, y, t):
    if kind == "cubic":
        return natural_cubic(x, y, t) if len(x) == 3 else si.CubicSpline(x, y, bc_type="not-a-knot")(t)
    if kind == "akima":
        return si.Akima1DInterpolator(x, y)(t)
    if kind == "pchip":
        return si.PchipInterpolator(x, y)(t)
    if kind == "cubic_hermite":
        return hermite(x, y, t)
    if kind in ("slinear", "linear"):
        return np.interp(t, x, y)
    return si.make_interp_spline(x, y, k=2)(t)


def curve(ctx, kind, x, y, T):
    from PyEMD import EMD

    e = EMD(spline_kind=kind)
    ext = np.array([x, y], dtype=float)
    keep, Tk = ext.copy(), T.copy()
    r = e.spline_points(T, ext)
    ctx.step()
    ctx.require(len(r) == 2, "spline_points returns (positions, values)")
    ctx.require(np.array_equal(ext, keep) and np.array_equal(T, Tk), "spline_points modified its input")
    return np.asarray(r[1], float)


def one(ctx, kind, x, y, T, what):
    x, y = np.asarray(x, float), np.asarray(y, float)
    inside = (T >= x[0]) & (T <= x[-1])
    t = T[inside]
    q = curve(ctx, kind, x, y, T)
    scale = max(1e-300, np.max(np.abs(y)))
    tol = 1e-8 * scale
    ctx.require(q.shape == t.shape, lambda: "%s: %d values for %d samples inside the knots" % (what, q.size, t.size))
    if t.size == 0:
        return
    ctx.require(np.all(np.isfinite(q)), lambda: what + ": non-finite envelope")
    w = reference(kind, x, y, t)
    ctx.require(np.max(np.abs(q - w)) <= tol * max(1.0, np.max(np.abs(w)) / scale), lambda: "%s: curve %s, expected %s" % (what, q.tolist(), w.tolist()))
    for i, v in enumerate(t):
        k = np.flatnonzero(x == v)
        if k.size:
            ctx.require(abs(q[i] - y[k[0]]) <= tol, lambda: "%s: misses the knot at %g" % (what, v))
    # scale/offset and straight lines
    q2 = curve(ctx, kind, x, -2.5 * y + 3.0, T)
    ctx.require(np.max(np.abs(q2 - (-2.5 * q + 3.0))) <= 1e-7 * max(1.0, np.max(np.abs(q2))), lambda: what + ": not equivariant in scale and offset of the knot values")
    for c0, c1 in ((1.5, 0.0), (-2.0, 0.75)):
        ql = curve(ctx, kind, x, c0 + c1 * x, T)
        ctx.require(np.max(np.abs(ql - (c0 + c1 * t))) <= 1e-8 * (1 + np.max(np.abs(x))), lambda: what + ": does not reproduce a straight line")
    ctx.validate()
    ctx.state(kind, tuple(np.round(x - x[0], 6)), tuple(np.round(y, 6)), tuple(np.round(q, 6)))


def knot_cases(grid, sizes, alphabet, maxvals):
    for k in sizes:
        for x in itertools.combinations(grid, k):
            for i, y in enumerate(itertools.product(alphabet, repeat=k)):
                yield {"x": list(x), "y": list(y)}


def knots(case, ctx):
    x = np.array(case["x"], float)
    T = np.arange(-1, max(x) + 2, 0.5)
    for kind in KINDS:
        one(ctx, kind, x, case["y"], T, "%s %s" % (kind, case))


def basis_cases(ks, spacings):
    """Knot counts x spacing patterns x unit values: decides the linear kinds completely for that knot set."""
    for k in ks:
        for sp in spacings:
            for j in range(k):
                yield {"knots": k, "spacing": sp, "unit": j}


SPACING = {
    "even": lambda k: np.arange(k, dtype=float) * 2,
    "alternating": lambda k: np.concatenate(([0], np.cumsum(np.where(np.arange(k - 1) % 2, 3.0, 1.0)))),
    "growing": lambda k: np.cumsum(np.arange(k)) + 0.25,
    "tiny-gap": lambda k: np.concatenate(([0], np.cumsum(np.where(np.arange(k - 1) == k // 2, 0.01, 2.0)))),
    "far": lambda k: 1e5 + 7.5 * np.arange(k),
    "nano": lambda k: 1e-10 * (np.arange(k) + 0.3 * (np.arange(k) % 3)),
    "fine": lambda k: 1e-3 * (np.arange(k) + 0.3 * (np.arange(k) % 3)),
}


def basis(case, ctx):
    k = case["knots"]
    x = SPACING[case["spacing"]](k)
    y = np.zeros(k)
    y[case["unit"]] = 1.0
    T = np.linspace(x[0] - (x[-1] - x[0]) * 0.1, x[-1] + (x[-1] - x[0]) * 0.1, 4 * k + 3)
    T = np.unique(np.concatenate((T, x)))
    for kind in KINDS:
        one(ctx, kind, x, y, T, "%s %s" % (kind, case))
        y2 = y + 0.3 * np.cos(1.7 * np.arange(k))
        one(ctx, kind, x, y2 * 1e4, T, "%s %s mixed" % (kind, case))


def large_cases(ks):
    for k in ks:
        for sp in SPACING:
            for j in sorted({0, 1, 2, k // 2, k - 2, k - 1}):
                yield {"knots": k, "spacing": sp, "unit": j}


SCALES = (1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12)


def scale_cases(ks):
    for k in ks:
        for sp in SPACING:
            for seed in (1, 2):
                yield {"knots": k, "spacing": sp, "seed": seed}


def scales(case, ctx):
    """Tiny and huge knot values: the curve scales with them."""
    k = case["knots"]
    x = SPACING[case["spacing"]](k)
    y = G.lcg(k, case["seed"])
    T = np.unique(np.concatenate((np.linspace(x[0], x[-1], 4 * k + 3), x)))
    for kind in KINDS:
        w = reference(kind, x, y, T)
        for s in SCALES:
            q = curve(ctx, kind, x, y * s, T)
            ctx.require(q.shape == T.shape and np.max(np.abs(q / s - w)) <= 1e-7 * np.max(np.abs(w)), lambda: "%s %s: knot values of size %g give another curve" % (kind, case, s))
            ctx.validate()
    ctx.state(k, case["spacing"], case["seed"])


def direct_cases(ks):
    for k in ks:
        for sp in SPACING:
            for seed in (1, 2, 3):
                yield {"knots": k, "spacing": sp, "seed": seed}


def direct(case, ctx):
    """The functions of PyEMD.splines called directly."""
    import PyEMD.splines as sp

    k = case["knots"]
    x = SPACING[case["spacing"]](k)
    y = G.lcg(k, case["seed"]) * 3
    t = np.unique(np.concatenate((np.linspace(x[0], x[-1], 5 * k), x)))
    for name in ("akima", "cubic", "pchip", "cubic_hermite"):
        if name == "cubic" and k < 4:
            continue
        f = getattr(sp, name, None)
        if f is None:
            continue
        q = f(x.copy(), y.copy(), t.copy())
        ctx.step()
        w = reference(name, x, y, t)
        ctx.require(np.shape(q) == t.shape and np.max(np.abs(q - w)) <= 1e-8 * max(1, np.max(np.abs(w))), lambda: "%s %s" % (name, case))
    if k == 3 and hasattr(sp, "cubic_spline_3pts"):
        r = sp.cubic_spline_3pts(x.copy(), y.copy(), t.copy())
        ctx.step()
        w = natural_cubic(x, y, t)
        ctx.require(np.allclose(r[0], t) and np.shape(r[1]) == t.shape and np.max(np.abs(r[1] - w)) <= 1e-8 * max(1, np.max(np.abs(w))), lambda: "cubic_spline_3pts %s" % case)
    ctx.validate()
    ctx.state(k, case["spacing"], case["seed"])


def name_cases():
    for kind in KINDS:
        for f in ("lower", "upper", "title", "swapcase"):
            yield {"kind": getattr(kind, f)(), "of": kind}
    for bad in ("", "cube", "spline", "akima ", "cubic-hermite", "nearest", "zero", "makima"):
        yield {"kind": bad, "of": None}


def names(case, ctx):
    from PyEMD import EMD

    x, y = np.array([0.0, 2, 3, 7, 9]), np.array([0.0, 1, -1, 2, 0])
    T = np.arange(10.0)
    e = EMD(spline_kind=case["kind"])
    ctx.step()
    ctx.state(case["kind"])
    if case["of"] is None:
        for ext in (np.array([x, y]), np.array([x[:3], y[:3]])):
            try:
                e.spline_points(T, ext)
            except ValueError:
                continue
            ctx.fail("spline kind %r accepted" % case["kind"])
        return
    q = e.spline_points(T, np.array([x, y]))[1]
    ctx.require(np.allclose(q, reference(case["of"], x, y, T), atol=1e-9), lambda: "%s differs from %s" % (case["kind"], case["of"]))
    ctx.validate()


class C05(core.Check):
    id = "C05"
    preload = ("PyEMD",)
    technique = "explicit enumeration of knot sequences (all subsets of a grid x value words, plus unit-vector bases) against reference interpolants"
    level_note = "All knot subsets of an 8-point grid with 3-5 (7 thorough) knots x values from {-1,0,2}, unit-vector bases for up to 24 (59) knots and six unit vectors for up to 600 (2000) knots in 6 spacing patterns, values of eight orders of magnitude, 7 kinds; reference curves are textbook formulas or scipy interpolants."
    assumptions = ["at least three strictly increasing knots, as mirroring guarantees", "scipy's Akima/PCHIP/not-a-knot/quadratic interpolants define those kinds"]

    def spaces(self, tier):
        q = tier == "quick"
        g = (0, 1, 2, 3, 4, 5, 7, 8)
        return [
            core.Space("names", name_cases, names, "spellings of the kind names"),
            core.Space("three-knots", lambda: knot_cases((0, 1, 2, 2.5, 3, 5, 9), (3,), (-1, 0, 2), 27), knots, "every 3-subset of a 7-point grid x every value word", block=4),
            core.Space("knots", lambda: knot_cases(g, (4, 5) if q else (4, 5, 6, 7), (-1, 0, 2), 81), knots, "every k-subset of the grid x every value word", block=4),
            core.Space("basis", lambda: basis_cases(tuple(range(3, 25)) if q else tuple(range(3, 60)), SPACING), basis, "knot counts x spacings x unit vectors"),
            core.Space("large", lambda: large_cases((33, 64, 65, 100, 129, 257, 600) if q else (33, 64, 65, 80, 100, 128, 129, 200, 256, 257, 512, 600, 1025, 2000)), basis, "many knots x spacings x six unit vectors", block=1),
            core.Space("scales", lambda: scale_cases((3, 4, 5, 6, 7, 9, 20) if q else tuple(range(3, 40))), scales, "knot values of eight orders of magnitude"),
            core.Space("direct", lambda: direct_cases(tuple(range(3, 40)) if q else tuple(range(3, 120))), direct, "module functions"),
        ]


CHECK = C05()
