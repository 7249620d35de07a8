"""C04: boundary mirroring yields a valid knot set, for every boundary shape and number of mirrored points."""
import itertools

import numpy as np

from mc import core, ref_extrema as R, ref_mirror as M, signals as G


def check_one(ctx, det, T, S, nb, what):
    from PyEMD import EMD

    e = EMD(extrema_detection=det, nbsym=nb)
    t, s = T.tolist(), S.tolist()
    f = R.simple if det == "simple" else R.parabol
    mp, mv, np_, nv = f(t, s)
    ctx.step()
    if len(mp) + len(np_) < 3:
        r = e.extract_max_min_spline(T, S)
        ctx.require(len(r) == 4 and all(np.size(v) == 1 and np.all(np.asarray(v) == -1) for v in r), lambda: what + ": envelopes for fewer than three extrema")
        ctx.state("none", len(mp), len(np_))
        return
    arr = [np.array(v, dtype=float) for v in (mp, mv, np_, nv)]
    keep = [v.copy() for v in arr]
    got = e.prepare_points(T, S, *arr)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(arr, keep)), lambda: what + ": extrema arrays modified")
    gap = min(b - a for a, b in zip(t, t[1:]))
    scale = max(abs(v) for v in s)
    tt, ss = 1e-9 * gap + 1e-12 * max(abs(v) for v in t), 1e-9 * scale + 1e-12
    want = M.knots(t, s, list(zip(mp, mv)), list(zip(np_, nv)), nb, det == "parabol")
    for kind, g, w, pos in (("upper", got[0], want[0], mp), ("lower", got[1], want[1], np_)):
        g = np.asarray(g, float)
        ctx.require(g.ndim == 2 and g.shape[0] == 2 and np.all(np.isfinite(g)), lambda: "%s: %s knots malformed" % (what, kind))
        ctx.require(np.all(np.diff(g[0]) > 0), lambda: "%s: %s knot positions not strictly increasing: %s" % (what, kind, str(g[0].tolist())[:600]))
        ctx.require(g[0, 0] <= t[0] + tt and g[0, -1] >= t[-1] - tt, lambda: "%s: %s knots do not cover the signal: %s" % (what, kind, str(g[0].tolist())[:600]))
        ctx.require(g.shape[1] - len(pos) <= 2 * nb, lambda: "%s: more than %d %s knots added per side" % (what, nb, kind))
        wa = np.array(w).T
        ctx.require(g.shape == wa.shape and np.max(np.abs(g[0] - wa[0])) <= tt and np.max(np.abs(g[1] - wa[1])) <= ss,
                    lambda: "%s: %s knots are %s, expected %s" % (what, kind, str(g.T.tolist())[:600], str(w)[:600]))
    # the envelope function uses exactly these knots and spans the whole signal
    r = e.extract_max_min_spline(T, S)
    ctx.step()
    for g, w, env in ((r[2], want[0], r[0]), (r[3], want[1], r[1])):
        wa = np.array(w).T
        g = np.asarray(g, float)
        tol = 1e-7
        ctx.require(g.shape == wa.shape and np.max(np.abs(g[0] - wa[0])) <= tol * gap + 1e-12 * abs(t[-1]) and np.max(np.abs(g[1] - wa[1])) <= tol * scale + 1e-12,
                    lambda: "%s: envelope knots are %s, expected %s" % (what, str(g.T.tolist())[:600], str(w)[:600]))
        ctx.require(np.shape(env) == (len(S),) and np.all(np.isfinite(env)), lambda: what + ": envelope does not span the signal")
    ctx.validate()
    n = len(mp) + len(np_)
    ctx.state(det, nb, n, np_[0] < mp[0], np_[-1] < mp[-1], len(want[0]), len(want[1]), tuple(np.round(np.array(want[0][:3]), 6).ravel()), tuple(np.round(np.array(want[1][-3:]), 6).ravel()))


def both(ctx, S, nbs, what):
    n = len(S)
    for nb in nbs:
        check_one(ctx, "simple", np.arange(n, dtype=float), S, nb, "%s simple nbsym=%d" % (what, nb))
        for ax in ("uniform", "uneven"):
            check_one(ctx, "parabol", G.SHORT_T[ax](n), S, nb, "%s parabol T=%s nbsym=%d" % (what, ax, nb))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def perm_cases(ns):
    for n in ns:
        for w in itertools.permutations(range(n)):
            yield {"word": list(w)}


def words(case, ctx):
    both(ctx, np.array(case["word"], float), (1, 2, 3), "S=%s" % case["word"])


def zig_cases(ks, lens):
    """Piecewise linear signals: every order type of the k turning values, every choice of segment lengths."""
    for k in ks:
        for vals in itertools.permutations(range(k)):
            d = [b - a for a, b in zip(vals, vals[1:])]
            if any(x * y > 0 for x, y in zip(d, d[1:])):
                continue
            for ls in itertools.product(lens, repeat=k - 1):
                yield {"turns": list(vals), "lengths": list(ls)}


def zig_signal(case):
    x = np.concatenate(([0], np.cumsum(case["lengths"])))
    return np.interp(np.arange(x[-1] + 1), x, np.array(case["turns"], float))


def zigs(case, ctx):
    both(ctx, zig_signal(case), (1, 2, 4), "%s" % case)


def family_cases(ns):
    for n, name in itertools.product(ns, G.FAMILIES):
        yield {"family": name, "n": n}


def families(case, ctx):
    S = G.make(case["family"], case["n"])
    both(ctx, S, (1, 2, 3, 4, 5, 8), "%s" % case)
    both(ctx, -S[::-1].copy(), (1, 2, 5), "%s negated and reversed" % case)


def long_cases(ns):
    for n, name, det, nb in itertools.product(ns, ("tone", "chirp", "noise", "walk", "quantised", "two_tones"), ("simple", "parabol"), (1, 2, 9)):
        yield {"family": name, "n": n, "detection": det, "nbsym": nb}


def longs(case, ctx):
    """Many samples and many extrema: positions must survive any index arithmetic."""
    S = G.make(case["family"], case["n"])
    check_one(ctx, case["detection"], np.arange(len(S), dtype=float), S, case["nbsym"], "%s" % case)


class C04(core.Check):
    id = "C04"
    preload = ("PyEMD",)
    technique = "explicit enumeration of all boundary shapes (order types, ties, segment lengths); knots compared with a reference mirroring model"
    level_note = "All order types of tie-free signals to length 8, all words with ties to length 6-7, all zig-zags with 5-6 turns and segment lengths 1..4, nbsym up to 8, both detections."
    assumptions = ["simple detection is only defined on the consecutive integer axis the decomposition itself uses", "nbsym >= 1"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("words", lambda: word_cases([((0, 1), 2), ((-1, 0, 1), 3), ((-1, 0, 1), 4), ((-1, 0, 1), 5), ((-1, 0, 1, 2), 6)] + ([((-1, 0, 2), 7)] if q else [((-1, 0, 1, 2), 7), ((-1, 0, 2), 8), ((-1, 0, 2), 9)])), words, "every word x nbsym 1..3 x detections x axes", block=4),
            core.Space("order-types", lambda: perm_cases((4, 5, 6, 7, 8)), words, "every permutation (order type) x nbsym 1..3", block=4),
            core.Space("zigzag", lambda: zig_cases((5,) if q else (5, 6, 7), (1, 2, 4) if q else (1, 2, 3, 5)[: 4]), zigs, "every zig-zag x segment lengths x nbsym", block=4),
            core.Space("families", lambda: family_cases((5, 9, 17, 40, 150) if q else (5, 9, 17, 40, 150, 600, 3000)), families, "families x nbsym in {1,2,3,4,5,8}"),
            core.Space("long", lambda: long_cases((300, 1000, 70000) if q else (300, 1000, 5000, 33000, 70000, 140000)), longs, "long signals (up to 70000 samples) x detection x nbsym", block=1),
        ]


CHECK = C04()
