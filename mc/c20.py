"""C20: the two-dimensional decompositions sift by their configured rules."""
import inspect
import itertools
import warnings

import numpy as np

from mc import core, signals as G
from mc.c18 import pattern

warnings.simplefilter("ignore")

FLAT = dict(mse_thr=0.01, mean_thr=0.01, FIXE=0, FIXE_H=0, MAX_ITERATION=1000)
BI = dict(mse_thr=0.01, mean_thr=0.01, FIXE=1, FIXE_H=0, MAX_ITERATION=5)


def weighted(X, Y, Z, xi, yi):
    """Inverse-distance weighting: follows its points closely, so that much more structure is left over."""
    X, Y, Z, xi, yi = (np.asarray(v, float) for v in (X, Y, Z, xi, yi))
    gx, gy = (xi, yi) if xi.ndim == 2 else np.meshgrid(xi, yi, indexing="ij")
    w = 1.0 / (1e-3 + (gx[..., None] - X) ** 2 + (gy[..., None] - Y) ** 2) ** 2
    return (w @ Z) / w.sum(axis=-1)


def lively(base):
    """The class with the closer-fitting surface in place of its spline (where it still has that seam)."""
    f = getattr(base, "spline_points", None)
    if f is None or list(inspect.signature(f).parameters) != ["X", "Y", "Z", "xi", "yi"]:
        return base
    used = []
    return type(base.__name__, (base,), {"spline_points": staticmethod(lambda *a: used.append(1) or weighted(*a)), "used": used})


def halving(base):
    """The class with envelopes at fixed fractions of the image: layers shrink slowly, so that there are many of them."""
    if not hasattr(base, "extract_max_min_spline"):
        return base
    used = []
    return type(base.__name__, (base,), {"extract_max_min_spline": lambda self, image, *peaks: used.append(1) or (0.25 * image, 0.75 * image), "used": used})


def build(cls, cfg):
    from PyEMD.BEMD import BEMD
    from PyEMD.EMD2d import EMD2D

    cfg = dict(cfg)
    change = {None: lambda c: c, True: lively, "half": halving}[cfg.pop("lively", None)]
    if cls == "EMD2D":
        return change(EMD2D)(**cfg)
    b = change(BEMD)()
    for k, v in cfg.items():
        setattr(b, k, v)
    return b


class Model:
    """Reference sifting loop; `jiggle` perturbs every sifted image at rounding level."""

    def __init__(self, cls, cfg, jiggle=0):
        self.flat, self.c = cls == "EMD2D", dict(FLAT if cls == "EMD2D" else BI, **cfg)
        self.e = build(cls, cfg)
        self.jiggle, self.tick, self.siftings = jiggle, 0, 0

    def shake(self, a):
        if not self.jiggle:
            return a
        self.tick += 1
        return a + 2e-15 * (np.abs(a) + np.max(np.abs(a))) * G.lcg(a.size, self.jiggle * 7919 + self.tick).reshape(a.shape)

    def envelope_mean(self, a):
        if self.flat:
            lo, up = self.e.extract_max_min_spline(a)
        else:
            lo, up = self.e.extract_max_min_spline(a, *self.e.find_extrema_positions(a))
        return 0.5 * (lo + up)

    def rich(self, a):
        mn, mx = self.e.find_extrema(a) if self.flat else self.e.find_extrema_positions(a)
        few = 4 if self.flat else 1
        return len(mn[0]) > few and len(mx[0]) > few

    def acceptable(self, a, before, mean):
        c = self.c
        if np.all(np.abs(mean - mean.mean()) < c["mean_thr"]) or np.mean(np.abs(a)) < c["mean_thr"]:
            return True
        if np.allclose(a, before, rtol=1e-5 if self.flat else 0.01):
            return True
        return self.flat and np.mean(a * a) < c["mse_thr"]

    def layer(self, rest):
        """One layer and whether the remainder was too poor in extrema to go on."""
        c, a, mean, streak = self.c, rest.copy(), np.zeros(rest.shape), 0
        for n in range(1, c["MAX_ITERATION"] + 1):
            if not self.rich(a):
                return a, True
            if self.flat:
                a = self.shake(a - mean)
            mean = self.envelope_mean(a)
            before, a = a, self.shake(a - mean)
            self.siftings += 1
            if c["FIXE"]:
                if n > c["FIXE"]:
                    break
            elif c["FIXE_H"]:
                if n > 1:
                    streak = streak + 1 if self.acceptable(a, before, mean) else 0
                    if streak >= c["FIXE_H"]:
                        break
            elif self.acceptable(a, before, mean):
                break
        return a, False

    def run(self, image, limit):
        f = image.astype(float)
        off, scale = (f.min(), (np.ptp(f) or 1.0)) if self.flat else (0.0, 1.0)
        s = (f - off) / scale
        rows = []
        while True:
            rest = s - sum(rows, np.zeros(s.shape))
            a, poor = self.layer(rest)
            rows.append(a)
            if (poor and self.flat) or np.allclose(f, sum(rows)) or (0 < limit <= len(rows)) or np.allclose(a, 0) or len(rows) > 60:
                break
        rows.append(s - sum(rows))
        return scale * np.array(rows), off


def compact(rows, off, size):
    """Layers without the offset, numerically empty ones dropped."""
    rows = np.array(rows, float)
    rows[-1] -= off
    return [r for r in rows if np.max(np.abs(r)) > 1e-7 * size]


def agree(a, b, tol):
    return len(a) == len(b) and all(np.max(np.abs(x - y)) <= tol for x, y in zip(a, b))


def judge(ctx, cls, cfg, a, limit, what):
    what = "%s %s max_imf=%d %s" % (cls, cfg, limit, what)
    e = build(cls, cfg)
    got = np.asarray(e(a, limit))
    if cfg.get("lively") and not getattr(e, "used", True):  # the replaced step is not used (any more)
        cfg = {k: v for k, v in cfg.items() if k != "lively"}
    m = Model(cls, cfg)
    rows, off = m.run(a, limit)
    ctx.step(m.siftings + 1)
    size = max(np.ptp(a.astype(float)) if cls == "EMD2D" else 1.0, 1e-300)
    big = max(size, np.max(np.abs(rows)))
    want = compact(rows, 0.0, size)
    have = compact(got, off, size)
    if agree(have, want, 1e-7 * big):
        ctx.validate()
        ctx.state(what, len(want), m.siftings)
        return
    for j in range(1, 9):
        v = Model(cls, cfg, j)
        if not agree(compact(v.run(a, limit)[0], 0.0, size), want, 1e-8 * big):
            ctx.skip()
            return
    ctx.fail("%s: %d layers, the sifting rules give %d; largest differences %s" % (what, len(have), len(want), [float(np.max(np.abs(x - y))) for x, y in zip(have, want)]))


CFG2D = ({}, {"FIXE": 1}, {"FIXE": 2}, {"FIXE": 4}, {"FIXE_H": 1}, {"FIXE_H": 2}, {"FIXE": 1, "FIXE_H": 3}, {"MAX_ITERATION": 1}, {"MAX_ITERATION": 3, "mean_thr": 1e-9, "mse_thr": 1e-9}, {"mean_thr": 0.15, "mse_thr": 0.0},
         {"mean_thr": 0.0, "mse_thr": 0.04, "MAX_ITERATION": 12}, {"FIXE": 6, "MAX_ITERATION": 4}, {"FIXE_H": 4, "MAX_ITERATION": 3}, {"mean_thr": 0.05, "MAX_ITERATION": 8}, {"FIXE_H": 3, "mean_thr": 0.1}, {"FIXE_H": 2, "mean_thr": 0.3}, {"FIXE_H": 3, "mean_thr": 0.0, "mse_thr": 0.2, "MAX_ITERATION": 20}, {"FIXE_H": 2, "mean_thr": 0.02, "mse_thr": 0.05, "MAX_ITERATION": 20})
CFGBI = ({}, {"FIXE": 0}, {"FIXE": 2}, {"FIXE": 3, "MAX_ITERATION": 8}, {"FIXE": 0, "FIXE_H": 1}, {"FIXE": 0, "FIXE_H": 2, "MAX_ITERATION": 8}, {"FIXE": 0, "mean_thr": 0.8}, {"FIXE": 0, "mean_thr": 2.5, "FIXE_H": 2}, {"FIXE": 9, "MAX_ITERATION": 3})


def image_cases(flat, bi):
    for cls, sizes, cfgs in (("EMD2D", flat, CFG2D), ("BEMD", bi, CFGBI)):
        for size, im, i in itertools.product(sizes, ("waves", "diagonal", "constant", "impulse", "plane", "checker", "bump"), range(len(cfgs))):
            for sc, off in ((1.0, 0.0), (6.0, -3.0)):
                yield {"cls": cls, "cfg": i, "kind": "named", "image": im, "size": list(size), "scale": sc, "offset": off}
        for size, f, i in itertools.product(sizes, ("noise", "noise2", "walk", "quantised", "two_tones", "am", "saw", "edge_burst"), range(len(cfgs))):
            yield {"cls": cls, "cfg": i, "kind": "family", "family": f, "size": list(size), "scale": 4.0}


def images(case, ctx):
    a = pattern(case)
    cfg = (CFG2D if case["cls"] == "EMD2D" else CFGBI)[case["cfg"]]
    for lim in (1, 2, 3, -1) if case["cls"] == "EMD2D" else (1, 2, 3):
        judge(ctx, case["cls"], cfg, a, lim, str(case))


def lively_cases(sizes):
    for cls, cfgs in (("EMD2D", CFG2D), ("BEMD", CFGBI)):
        for size, f, i in itertools.product(sizes, ("waves", "diagonal", "impulse", "bump", "noise", "noise2", "walk", "quantised", "two_tones", "am", "edge_burst"), range(len(cfgs))):
            k = "named" if f in ("waves", "diagonal", "impulse", "bump") else "family"
            yield {"cls": cls, "cfg": i, "kind": k, "image": f, "family": f, "size": list(size), "scale": 2.0}
        for f, i, sc in itertools.product(("noise", "walk", "am"), range(len(cfgs)), (1e-12, 1e-9, 1e-4, 1e6) if cls == "EMD2D" else (0.5, 300.0)):
            yield {"cls": cls, "cfg": i, "kind": "family", "family": f, "size": list(sizes[1]), "scale": sc}


def livelies(case, ctx):
    cfgs = CFG2D if case["cls"] == "EMD2D" else CFGBI
    cfg = dict({"MAX_ITERATION": 12}, **cfgs[case["cfg"]])
    for lim in (2, 4):
        judge(ctx, case["cls"], dict(cfg, lively=True), pattern(case), lim, str(case))


def deep_cases():
    for cls, f, fixe, lim in itertools.product(("EMD2D", "BEMD"), ("noise", "two_tones"), (1, 2), (*range(1, 14), 17, 20, 40, -1)):
        if lim != -1 or cls == "EMD2D":
            yield {"cls": cls, "cfg": fixe, "kind": "family", "family": f, "size": [9, 8], "scale": 50.0, "limit": lim}


def deeps(case, ctx):
    judge(ctx, case["cls"], {"FIXE": case["cfg"], "lively": "half"}, pattern(case), case["limit"], str(case))


def tile_cases(cls, specs):
    for (th, tw), alphabet, times in specs:
        for w in G.tuples(alphabet, th * tw):
            yield {"cls": cls, "kind": "tile", "tile": [th, tw], "word": list(w), "times": list(times)}


def tiles(case, ctx):
    a = pattern(case) + 0.3 * G.lcg(pattern(case).size, 5).reshape(pattern(case).shape)
    for cfg in CFG2D if case["cls"] == "EMD2D" else CFGBI:
        judge(ctx, case["cls"], cfg, a, 2, str(case))


def accept_cases(n, alphabet):
    for w in G.tuples(alphabet, n):
        yield {"word": list(w)}


def accept(case, ctx):
    """check_proto_imf on every small proto-layer, each rule isolated by its threshold."""
    a = np.array(case["word"], float).reshape(2, -1)
    means = (np.zeros(a.shape), np.full(a.shape, 3.0), np.array([[0.0, 0.05] * (a.shape[1] // 2)] * 2), np.array([[0.3, -0.3] * (a.shape[1] // 2), [0.0] * a.shape[1]]))
    for cls in ("EMD2D", "BEMD"):
        for mt, st in ((0.01, 0.01), (0.0, 0.0), (0.0, 0.13), (0.21, 0.0), (0.4, 0.3)):
            cfg = {"mean_thr": mt, "mse_thr": st}
            e = build(cls, cfg)
            if not hasattr(e, "check_proto_imf"):
                return
            m = Model(cls, cfg)
            for mean, before in itertools.product(means, (a, a + 1.0, a * (1 + 1e-7), a * 1.001, a * 1.1)):
                ctx.step()
                got, want = bool(e.check_proto_imf(a, before, mean)), bool(m.acceptable(a, before, mean))
                ctx.require(got == want, lambda: "%s %s: check_proto_imf(%s, %s, %s) is %s" % (cls, cfg, a.tolist(), before.tolist(), mean.tolist(), got))
    ctx.validate()
    ctx.state(case["word"])


class C20(core.Check):
    id = "C20"
    preload = ("PyEMD", "PyEMD.EMD2d", "PyEMD.BEMD", "scipy.interpolate")
    technique = "reference state machine of both two-dimensional sifting loops run in lockstep with the real code over every small tile and named image x stopping configuration; rounding-perturbed model variants identify undetermined inputs"
    level_note = "15 (EMD2D) and 9 (BEMD) stopping configurations x named images, families, sizes, limits and all tiles over a small alphabet; the acceptance rule on every 2x2 (2x4 thorough) proto-layer word with each threshold isolated."
    assumptions = ["envelopes and extrema are the implementation's own (decided by C18)", "numerically empty layers are not counted", "inputs on a rounding knife edge are counted, not judged, when implementation and model differ"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("acceptance", lambda: accept_cases(4 if q else 8, (0.2, 0.0, -0.5, 1.0) if q else (0.2, 0.0, -0.5)), accept, "proto-layers x thresholds", block=4),
            core.Space("images", lambda: image_cases(((9, 9), (8, 12)) if q else ((7, 7), (9, 9), (8, 12), (13, 8), (20, 20)), ((6, 6), (5, 8)) if q else ((6, 6), (5, 8), (9, 7))), images, "images x stopping rules x limits", timeout=120),
            core.Space("lively", lambda: lively_cases(((9, 9), (12, 10)) if q else ((9, 9), (12, 10), (8, 17), (20, 20), (24, 13))), livelies, "closer-fitting surfaces: several layers, long siftings", timeout=120),
            core.Space("deep", deep_cases, deeps, "many layers: every limit to 13 and beyond"),
            core.Space("tiles", lambda: itertools.chain(tile_cases("EMD2D", [((2, 2), (0, 1, 3), (5, 5))] if q else [((2, 2), (0, 1, 3, 4), (5, 6)), ((3, 3), (0, 1), (4, 3))]), tile_cases("BEMD", [((2, 2), (0, 2, 5), (3, 4))])), tiles, "every tile x stopping rules", timeout=120),
        ]


CHECK = C20()
