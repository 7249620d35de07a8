"""Reference model of the sifting loop.

The model decides *when* to sift and stop; finding extrema and drawing envelopes is delegated to `blocks`
(either the implementation's own public building blocks on a fresh object, or the fully independent ones below).
`jiggle` perturbs every sifting by a relative amount at rounding level: when perturbed runs of the model disagree
with the unperturbed one, the input sits on a rounding knife edge and its control flow is not determined.
"""
import numpy as np

from mc import ref_extrema as R, ref_mirror as M, signals as G


class ImplBlocks:
    """The public building blocks of a fresh EMD object (decided on their own by C03, C04 and C05)."""

    def __init__(self, **kw):
        from PyEMD import EMD

        self.e = EMD(**kw)

    def extrema(self, T, s):
        """(positions of maxima, positions of minima, zero-crossings) counts."""
        r = self.e.find_extrema(T, s)
        return len(r[0]), len(r[2]), len(r[4])

    def envelopes(self, T, s):
        up, lo, mx, mn = self.e.extract_max_min_spline(T, s)
        return up, lo, mx[1], mn[1]


class RefBlocks:
    """Extrema, mirroring and splines of the reference models only."""

    def __init__(self, extrema_detection="simple", spline_kind="cubic", nbsym=2, **_):
        self.par, self.kind, self.nb = extrema_detection == "parabol", spline_kind, nbsym

    def _ext(self, T, s):
        f = R.parabol if self.par else R.simple
        return f(T.tolist(), s.tolist())

    def extrema(self, T, s):
        mp, _, np_, _ = self._ext(T, s)
        return len(mp), len(np_), len(R.zeros(s.tolist()))

    def envelopes(self, T, s):
        from mc.c05 import reference

        mp, mv, np_, nv = self._ext(T, s)
        up, lo = M.knots(T.tolist(), s.tolist(), list(zip(mp, mv)), list(zip(np_, nv)), self.nb, self.par)
        out = []
        for k in (up, lo):
            k = np.array(k).T
            out.append(reference(self.kind, k[0], k[1], T))
        return out[0], out[1], np.array(up)[:, 1], np.array(lo)[:, 1]


DEFAULTS = dict(FIXE=0, FIXE_H=0, MAX_ITERATION=1000, svar_thr=0.001, std_thr=0.2, energy_ratio_thr=0.2, range_thr=0.001, total_power_thr=0.005)


def is_imf(new, old, emax, emin, c):
    if np.any(emax < 0) or np.any(emin > 0):
        return False
    if np.sum(new * new) < 1e-10:
        return False
    d = new - old
    dd = np.sum(d * d)
    with np.errstate(all="ignore"):
        return bool(dd / (old.max() - old.min()) < c["svar_thr"] or np.sum((d / new) ** 2) < c["std_thr"] or dd / np.sum(old * old) < c["energy_ratio_thr"])


def ended(rest, c):
    return bool(rest.max() - rest.min() < c["range_thr"] or np.sum(np.abs(rest)) < c["total_power_thr"])


def normalise(T):
    return (T - T[0]) / np.min(np.diff(T))


def decompose(S, T, cfg, blocks, max_imf=-1, jiggle=0):
    """Returns (oscillatory rows, residue, siftings per extracted row)."""
    c = dict(DEFAULTS, **cfg)
    S = np.asarray(S, float)
    T = normalise(np.asarray(T, float))
    rows, counts = [], []
    scale = np.max(np.abs(S)) if len(S) else 1.0
    tick = 0
    while True:
        rest = S - np.sum(rows, axis=0) if rows else S.copy()
        h = rest.copy()
        siftings = run = 0
        last_ext = -1
        trend = False
        while siftings < c["MAX_ITERATION"] - 1:
            a, b, z = blocks.extrema(T, h)
            last_ext = a + b
            if last_ext <= 2:
                trend = True
                break
            up, lo, vmax, vmin = blocks.envelopes(T, h)
            old = h
            h = h - 0.5 * (up + lo)
            siftings += 1
            if jiggle:
                tick += 1
                h = h + 2e-15 * (np.abs(h) + scale) * G.lcg(len(S), jiggle * 7919 + tick)
            if c["FIXE"]:
                if siftings >= c["FIXE"]:
                    break
                continue
            a, b, z = blocks.extrema(T, h)
            last_ext = a + b
            balanced = abs(a + b - z) <= 1
            if c["FIXE_H"]:
                if siftings == 1:
                    continue
                run = run + 1 if balanced else 0
                if run >= c["FIXE_H"]:
                    break
            elif is_imf(h, old, vmax, vmin, c) and balanced:
                break
        rows.append(h)
        counts.append(siftings)
        left = S - np.sum(rows, axis=0)
        if trend or ended(left, c) or len(rows) == max_imf:
            break
    if last_ext <= 2:
        rows.pop()
        counts.pop()
    out = np.array(rows) if rows else np.empty((0, len(S)))
    return out, S - out.sum(axis=0), counts


def agree(a, b, tol):
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= tol)


def verdict(imfs, res, S, T, cfg, make_blocks, max_imf=-1, rel=1e-7, variants=tuple(range(1, 17))):
    """'ok', 'knife-edge' or a message.  Also returns the sifting counts of the model."""
    mi, mr, counts = decompose(S, T, cfg, make_blocks(), max_imf)
    scale = max(1e-300, np.max(np.abs(S)), np.max(np.abs(mi)) if mi.size else 0)
    tol = rel * scale
    if agree(imfs, mi, tol) and agree(res, mr, tol):
        return "ok", counts
    for j in variants:
        vi, vr, vc = decompose(S, T, cfg, make_blocks(), max_imf, jiggle=j)
        if vc != counts or not agree(vi, mi, tol / 10):
            return "knife-edge", counts
    if imfs.shape != mi.shape:
        return "%d components, the stopping rules give %d (siftings %s)" % (len(imfs), len(mi), counts), counts
    err = [float(np.max(np.abs(x - y))) for x, y in zip(imfs, mi)]
    return "components differ from the stopping rules' (siftings %s) by %s" % (counts, err), counts
