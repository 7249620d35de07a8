"""C18: two-dimensional decompositions reconstruct the image and find its extrema."""
import itertools
import warnings

import numpy as np

from mc import core, signals as G

warnings.simplefilter("ignore")


def images(shape, alphabet):
    for w in G.tuples(alphabet, shape[0] * shape[1]):
        yield {"shape": list(shape), "word": list(w)}


def image_cases(specs):
    for shape, alphabet in specs:
        yield from images(shape, alphabet)


def grid(case):
    return np.array(case["word"], float).reshape(case["shape"])


def around(a, i, j):
    h, w = a.shape
    return [(x, y) for x in range(max(0, i - 1), min(h, i + 2)) for y in range(max(0, j - 1), min(w, j + 2)) if (x, y) != (i, j)]


def peaks(a, sign):
    """Interior pixels that no neighbour exceeds (sign=1) or undercuts (sign=-1)."""
    b = sign * a
    h, w = a.shape
    return [(i, j) for i in range(1, h - 1) for j in range(1, w - 1) if all(b[i, j] >= b[p] for p in around(a, i, j))]


def extrema(case, ctx):
    from PyEMD.EMD2d import EMD2D

    a = grid(case)
    keep = a.copy()
    mn, mx = EMD2D.find_extrema(a)
    ctx.step()
    ctx.require(np.array_equal(a, keep), lambda: "%s: the image was modified" % case)
    for name, got, sign in (("minima", mn, -1), ("maxima", mx, 1)):
        g = sorted(zip(np.asarray(got[0]).tolist(), np.asarray(got[1]).tolist()))
        ctx.require(g == peaks(a, sign), lambda: "EMD2D %s of %s are %s, not %s" % (name, a.tolist(), g, peaks(a, sign)))
    ctx.validate()
    ctx.state(case["shape"], case["word"])


def domes(a):
    """Pixels from which no pixel at least 1 higher can be reached without stepping below the start."""
    out = []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            seen, todo, high = {(i, j)}, [(i, j)], a[i, j]
            while todo:
                p = todo.pop()
                high = max(high, a[p])
                for q in around(a, *p):
                    if q not in seen and a[q] >= a[i, j]:
                        seen.add(q)
                        todo.append(q)
            if high < a[i, j] + 1:
                out.append((i, j))
    return out


def bemd_extrema(case, ctx):
    from PyEMD.BEMD import BEMD

    a = grid(case)
    keep = a.copy()
    mn, mx = BEMD.find_extrema_positions(a)
    ctx.step()
    ctx.require(np.array_equal(a, keep), lambda: "%s: the image was modified" % case)
    for name, got, ref in (("minima", mn, domes(-a)), ("maxima", mx, domes(a))):
        g = sorted(zip(np.asarray(got[1]).tolist(), np.asarray(got[0]).tolist()))  # (x, y) = (column, row)
        ctx.require(g == ref, lambda: "BEMD %s of %s are at rows/columns %s, not %s" % (name, a.tolist(), g, ref))
    ctx.validate()
    ctx.state(case["shape"], case["word"])


def shape_cases(n):
    for h, w, d in itertools.product(range(1, n + 1), range(1, n + 1), ("float64", "float32", "int64", "uint8")):
        yield {"shape": [h, w], "dtype": d}


def mirrored(a):
    h, w = a.shape
    ref = lambda i, n: n - 1 - i if i < n else (i - n if i < 2 * n else 3 * n - 1 - i)
    return np.array([[a[ref(i, h), ref(j, w)] for j in range(3 * w)] for i in range(3 * h)], float)


def prepare(case, ctx):
    from PyEMD.EMD2d import EMD2D

    h, w = case["shape"]
    a = np.arange(1, h * w + 1).reshape(h, w).astype(case["dtype"])
    keep = a.copy()
    big = EMD2D.prepare_image(a)
    ctx.step()
    ctx.require(np.array_equal(a, keep), lambda: "%s: the image was modified" % case)
    want = mirrored(a)
    ctx.require(np.array_equal(np.asarray(big, float), want), lambda: "%s: the extended image %s is not the image among its reflections %s" % (case, np.asarray(big).tolist(), want.tolist()))
    ctx.validate()
    ctx.state(str(case))


# ---- decompositions --------------------------------------------------------------------------------------------

def pattern(case):
    """Images large enough to be sifted."""
    k = case["kind"]
    if k == "tile":
        a = np.tile(np.array(case["word"], float).reshape(case["tile"]), case["times"])
    elif k == "cross":
        a = np.add.outer(np.array(case["rows"], float), np.array(case["cols"], float))
    elif k == "product":
        a = np.multiply.outer(np.array(case["rows"], float), np.array(case["cols"], float))
    elif k == "family":
        h, w = case["size"]
        a = G.make(case["family"], h * w).reshape(h, w)
    else:
        h, w = case["size"]
        i, j = np.indices((h, w))
        a = {"waves": np.sin(1.9 * i + 0.3) * np.cos(2.1 * j) + 0.2 * i, "diagonal": np.sin(1.7 * (i + j)) + 0.05 * j * j, "constant": np.full((h, w), 7.0), "zero": np.zeros((h, w)),
             "impulse": 1.0 * (i == h // 2) * (j == w // 2), "plane": 0.5 * i - 0.25 * j, "checker": ((i + j) % 2) * 1.0, "bump": np.exp(-((i - h / 2.0) ** 2 + (j - w / 3.0) ** 2) / 4.0)}[case["image"]]
    return a * case.get("scale", 1.0) + case.get("offset", 0.0)


CFG2D = ({}, {"FIXE": 1}, {"FIXE": 3}, {"FIXE_H": 2}, {"MAX_ITERATION": 1}, {"MAX_ITERATION": 6, "mean_thr": 1e-6, "mse_thr": 1e-6}, {"mean_thr": 0.2})


def layers(ctx, cls, cfg, a, limit, what):
    from mc.c20 import build

    e = build(cls, cfg)
    keep = a.copy()
    L = np.asarray(e(a, limit) if limit != -1 else e(a))
    ctx.step()
    what = "%s %s max_imf=%d %s" % (cls, cfg, limit, what)
    ctx.require(np.array_equal(a, keep) and a.dtype == keep.dtype, lambda: what + ": the image was modified")
    ctx.require(L.ndim == 3 and L.shape[1:] == a.shape and len(L) >= 1, lambda: "%s: layers of shape %s for an image of shape %s" % (what, L.shape, a.shape))
    ctx.require(np.all(np.isfinite(L)), lambda: what + ": layers are not finite")
    f = keep.astype(float)
    tol = 1e-12 * max(np.max(np.abs(L)), np.max(np.abs(f))) * len(L) + 2e-8 * (np.ptp(f) if cls == "EMD2D" else 1.0)
    left = np.max(np.abs(L.sum(axis=0) - f))
    ctx.require(left <= tol, lambda: "%s: the layers miss the image by %g" % (what, left))
    if limit > 0:
        ctx.require(len(L) <= limit + 1, lambda: "%s: %d layers" % (what, len(L)))
    return L


def decomp(case, ctx):
    a = pattern(case)
    for cfg in CFG2D if case["cls"] == "EMD2D" else ({}, {"FIXE": 0}, {"FIXE": 2}, {"FIXE": 0, "FIXE_H": 2}, {"FIXE": 0, "MAX_ITERATION": 2}):
        got = {}
        for lim in (-1, 1, 2, 3) if case["cls"] == "EMD2D" else (1, 2, 4):
            got[lim] = layers(ctx, case["cls"], cfg, a, lim, str(case))
            ctx.state(str(case), str(cfg), lim, len(got[lim]))
        lims = [k for k in got if k > 0]
        full = got.get(-1, got[max(lims)])
        for lim in lims:
            n = min(lim, len(got[lim]) - 1, len(full) - 1)
            tol = 1e-9 * max(1.0 if case["cls"] == "BEMD" else 1e-300, np.max(np.abs(full)))
            ctx.require(np.max(np.abs(got[lim][:n] - full[:n]), initial=0.0) <= tol, lambda: "%s %s: with max_imf=%d the first layers differ" % (case, cfg, lim))
        ctx.validate(len(got))


def deep_cases():
    for cls, f, size in itertools.product(("EMD2D", "BEMD"), ("noise", "two_tones"), ((9, 8), (6, 11))):
        yield {"cls": cls, "kind": "family", "family": f, "size": list(size), "scale": 50.0}


def deep(case, ctx):
    """Envelopes replaced by fixed fractions of the image: about thirty layers, judged under every limit."""
    a = pattern(case)
    cfg = {"FIXE": 1, "lively": "half"}
    full = layers(ctx, case["cls"], cfg, a, 60, str(case))
    for lim in range(1, len(full) + 2):
        L = layers(ctx, case["cls"], cfg, a, lim, str(case))
        n = min(lim, len(L) - 1)
        ctx.require(len(L) >= min(lim, len(full) - 1) and np.max(np.abs(L[:n] - full[:n]), initial=0.0) <= 1e-9 * np.max(np.abs(full)), lambda: "%s: with max_imf=%d the first layers differ" % (case, lim))
        ctx.validate()
        ctx.state(str(case), lim, len(L))


def large_cases(sizes):
    for size, im in itertools.product(sizes, ("waves", "diagonal", "impulse", "checker", "bump")):
        yield {"kind": "named", "image": im, "size": list(size), "scale": 40.0}
    for size, f in itertools.product(sizes, ("noise", "walk", "quantised", "am")):
        yield {"kind": "family", "family": f, "size": list(size), "scale": 3.0}


def large(case, ctx):
    """Extrema, extension and one-layer decompositions of larger images."""
    from PyEMD.BEMD import BEMD
    from PyEMD.EMD2d import EMD2D

    a = pattern(case)
    mn, mx = EMD2D.find_extrema(a)
    for name, got, sign in (("minima", mn, -1), ("maxima", mx, 1)):
        g = sorted(zip(np.asarray(got[0]).tolist(), np.asarray(got[1]).tolist()))
        ctx.require(g == peaks(a, sign), lambda: "EMD2D %s of %s" % (name, case))
    ctx.require(np.array_equal(np.asarray(EMD2D.prepare_image(a), float), mirrored(a)), lambda: "%s: the extended image is not the image among its reflections" % case)
    ctx.step(2)
    if case["kind"] == "family":
        b = a[:18, :21]
        mn, mx = BEMD.find_extrema_positions(b)
        for name, got, ref in (("minima", mn, domes(-b)), ("maxima", mx, domes(b))):
            g = sorted(zip(np.asarray(got[1]).tolist(), np.asarray(got[0]).tolist()))
            ctx.require(g == ref, lambda: "BEMD %s of %s" % (name, case))
        ctx.step()
    layers(ctx, "EMD2D", {"FIXE": 1}, a, 1, str(case))
    ctx.validate()
    ctx.state(str(case))


def tile_cases(cls, specs, scales):
    for (th, tw), alphabet, times in specs:
        for w in G.tuples(alphabet, th * tw):
            for sc, off in scales:
                yield {"cls": cls, "kind": "tile", "tile": [th, tw], "word": list(w), "times": list(times), "scale": sc, "offset": off}


def cross_cases(cls, h, w, alphabet, kinds):
    rows = [x for x in G.tuples(alphabet, h)]
    cols = [x for x in G.tuples(alphabet, w)]
    for k, r, c in itertools.product(kinds, rows, cols):
        yield {"cls": cls, "kind": k, "rows": list(r), "cols": list(c)}


def named_cases(cls, sizes):
    for size, im in itertools.product(sizes, ("waves", "diagonal", "constant", "zero", "impulse", "plane", "checker", "bump")):
        for sc, off in ((1.0, 0.0), (255.0, -100.0), (1e-3, 5.0)) + (((1e-12, 0.0), (1e9, 1e9)) if cls == "EMD2D" else ()):
            yield {"cls": cls, "kind": "named", "image": im, "size": list(size), "scale": sc, "offset": off}
    for size, f in itertools.product(sizes, G.FAMILIES):
        yield {"cls": cls, "kind": "family", "family": f, "size": list(size), "scale": 3.0}


def type_cases():
    for cls, d, im in itertools.product(("EMD2D", "BEMD"), ("uint8", "int16", "int64", "float32", "float64", "float16", "longdouble", "bool", ">f8", ">i4"), ("waves", "checker", "impulse", "constant", "bump")):
        yield {"cls": cls, "dtype": d, "kind": "named", "image": im, "size": [9, 11], "scale": 40.0, "offset": 90.0}
    for cls, d, im in itertools.product(("EMD2D", "BEMD"), ("int8", "uint8", "int16", "uint16", "int32", "uint32"), ("waves", "checker", "impulse", "diagonal")):
        yield {"cls": cls, "dtype": d, "kind": "named", "image": im, "size": [9, 11], "scale": 1.0, "stretch": True}


def types(case, ctx):
    a = pattern(case)
    if case.get("stretch"):  # over the whole range of the type
        lo, hi = float(np.iinfo(case["dtype"]).min), float(np.iinfo(case["dtype"]).max)
        a = lo + (a - a.min()) / (a.max() - a.min()) * (hi - lo)
    a = (a if np.issubdtype(np.dtype(case["dtype"]), np.floating) else np.round(a)).astype(case["dtype"])
    for lim in (1, 2):
        L = layers(ctx, case["cls"], {}, a, lim, str(case))
        if case["cls"] == "BEMD" and case["dtype"] == "longdouble":
            continue  # heights of exactly one unit are judged in the image's own precision
        M = layers(ctx, case["cls"], {}, a.astype(float), lim, str(case))
        ctx.require(L.shape == M.shape and np.max(np.abs(L - M)) <= 1e-9 * max(1.0, np.max(np.abs(M))), lambda: "%s max_imf=%d: the layers differ from those of the same image in double precision" % (case, lim))
    ctx.validate()
    ctx.state(str(case))


def envelope_cases(sizes):
    for size, im in itertools.product(sizes, ("waves", "diagonal", "checker", "bump")):
        yield {"kind": "named", "image": im, "size": list(size)}
    for size, f in itertools.product(sizes, ("noise", "noise2", "quantised", "two_tones", "walk", "am")):
        yield {"kind": "family", "family": f, "size": list(size), "scale": 0.5}


def envelopes(case, ctx):
    """Envelopes are spanned on the extrema and evaluated over the image's own area."""
    from scipy.interpolate import SmoothBivariateSpline as SBS

    from PyEMD.BEMD import BEMD
    from PyEMD.EMD2d import EMD2D

    a = pattern(case)
    h, w = a.shape
    big = mirrored(a)
    enough = len(peaks(a, 1)) > 4 and len(peaks(a, -1)) > 4  # otherwise the image is not sifted
    lo, up = EMD2D().extract_max_min_spline(a) if enough else (None, None)
    ctx.step()
    for name, g, sign in (("lower", lo, -1), ("upper", up, 1)) if enough else ():
        p = np.array(peaks(big, sign)).T
        want = SBS(p[0], p[1], big[p[0], p[1]])(np.arange(h, 2 * h), np.arange(w, 2 * w))
        ctx.require(g.shape == a.shape and np.allclose(g, want, rtol=1e-7, atol=1e-9), lambda: "%s: the %s envelope of EMD2D differs by %s" % (case, name, np.max(np.abs(g - want)) if g.shape == want.shape else g.shape))
    a = 4 * a  # peaks of BEMD are domes of one unit
    mn, mx = domes(-a), domes(a)
    if len(mn) > 1 and len(mx) > 1:
        lo, up = BEMD().extract_max_min_spline(a, *BEMD.find_extrema_positions(a))
        ctx.step()
        for name, g, p in (("lower", lo, mn), ("upper", up, mx)):
            p = np.array(p).T
            ctx.require(g.shape == a.shape, lambda: "%s: the %s envelope of BEMD has shape %s" % (case, name, g.shape))
            d = np.max(np.abs(g[p[0], p[1]] - a[p[0], p[1]]))
            ctx.require(d <= 1e-6 * np.max(np.abs(a)), lambda: "%s: the %s envelope of BEMD misses the extrema by %g" % (case, name, d))
    ctx.validate()
    ctx.state(str(case))


def reuse_cases():
    for cls, seq in itertools.product(("EMD2D", "BEMD"), itertools.product(("waves", "checker", "bump", "constant"), repeat=2)):
        yield {"cls": cls, "seq": list(seq)}


def reuse(case, ctx):
    """Runs on one object are independent and earlier results stay intact."""
    from PyEMD.BEMD import BEMD
    from PyEMD.EMD2d import EMD2D

    cls = {"EMD2D": EMD2D, "BEMD": BEMD}[case["cls"]]
    e = cls()
    kept = []
    for i, im in enumerate(case["seq"]):
        a = pattern({"kind": "named", "image": im, "size": [9, 8 + i], "scale": 20.0})
        r = e(a, max_imf=2)
        ctx.step(2)
        ctx.require(np.array_equal(r, cls()(a, max_imf=2)), lambda: "%s: a reused object decomposes differently" % case)
        kept.append((r, r.copy()))
    ctx.require(all(np.array_equal(x, y) for x, y in kept), lambda: "%s: an earlier result was modified" % case)
    ctx.validate()
    ctx.state(str(case))


class C18(core.Check):
    id = "C18"
    preload = ("PyEMD", "PyEMD.EMD2d", "PyEMD.BEMD", "scipy.interpolate")
    technique = "exhaustive enumeration of all small images (extrema, mirroring) and of all tiled, crossed and multiplied words (decompositions) x configurations x limits; plain-loop reference definitions"
    level_note = "extrema: all 3x3 images over 3 letters, all binary 3x4, 4x3 and 4x4 images (5x4 thorough); mirroring: every shape to 6x6 (9x9); decompositions: all 2x2 tiles over 3 letters, all binary 3x3 tiles, all pairs of row and column words, named and random-like images, 7/5 configurations x 4/3 limits."
    assumptions = ["signed or floating images for the extrema functions", "BEMD is run with a component limit: without one its envelopes may diverge (see DESIGN)"]

    def spaces(self, tier):
        q = tier == "quick"
        tiles = [((2, 2), (0, 1, 3), (5, 5)), ((3, 3), (0, 1), (3, 4))] if q else [((2, 2), (0, 1, 3, 4), (5, 6)), ((3, 3), (0, 1), (4, 3)), ((2, 3), (0, 1, 2), (4, 3))]
        btiles = [((2, 2), (0, 1, 3), (3, 4))] if q else [((2, 2), (0, 1, 3), (3, 4)), ((3, 3), (0, 1), (2, 3))]
        sizes = ((9, 9), (8, 12)) if q else ((7, 7), (9, 9), (8, 12), (13, 8), (20, 20))
        return [
            core.Space("mirroring", lambda: shape_cases(6 if q else 9), prepare, "every shape x number types"),
            core.Space("extrema", lambda: image_cases([((3, 3), (-1, 0, 2)), ((3, 4), (0, 1)), ((4, 3), (0, 1)), ((4, 4), (0, 1))] + ([] if q else [((5, 4), (0, 1))])), extrema, "every small image", block=64),
            core.Space("domes", lambda: image_cases([((2, 2), (-1, 0, 1, 2)), ((3, 3), (0, 1)), ((3, 4), (0, 1)), ((2, 4), (0, 0.5, 1.5)), ((2, 4), (0, 2.5, 6000)), ((2, 5), (0, 2) if q else (0, 1, 2))] + ([] if q else [((3, 3), (0, 1, 3)), ((4, 4), (0, 1))])), bemd_extrema, "every small image", block=32),
            core.Space("large", lambda: large_cases(((40, 33), (64, 48)) if q else ((40, 33), (64, 48), (50, 70))), large, "larger images", timeout=300),
            core.Space("deep", deep_cases, deep, "many layers under every limit"),
            core.Space("types", type_cases, types, "number types"),
            core.Space("envelopes", lambda: envelope_cases(((9, 9), (8, 12), (11, 7), (20, 18), (17, 34)) if q else ((9, 9), (8, 12), (11, 7), (20, 18), (17, 34), (40, 24), (33, 66))), envelopes, "images x shapes"),
            core.Space("reuse", reuse_cases, reuse, "all pairs of runs on one object"),
            core.Space("named", lambda: itertools.chain(named_cases("EMD2D", sizes), named_cases("BEMD", ((6, 6), (5, 8)) if q else ((6, 6), (5, 8), (9, 7)))), decomp, "named images x configurations x limits", timeout=60),
            core.Space("tiles", lambda: itertools.chain(tile_cases("EMD2D", tiles, ((1.0, 0.0), (0.3, -7.0))), tile_cases("BEMD", btiles, ((1.0, 0.0), (5.0, 2.0)))), decomp, "every tile", timeout=60),
            core.Space("crosses", lambda: itertools.chain(cross_cases("EMD2D", 7, 6, (0, 1), ("cross",)) if q else cross_cases("EMD2D", 8, 7, (0, 1), ("cross", "product")), cross_cases("BEMD", 4, 4, (0, 2), ("cross", "product"))), decomp, "every pair of row and column words", timeout=60, block=4),
        ]


CHECK = C18()
