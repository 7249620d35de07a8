"""C03: extrema and zero-crossing detection against the run-based reference model."""
import itertools

import numpy as np

from mc import core, ref_extrema as R, signals as G


def compare(ctx, det, T, S, what):
    from PyEMD import EMD

    e = EMD(extrema_detection=det)
    T0, S0 = T.copy(), S.copy()
    got = e.find_extrema(T, S)
    ctx.step()
    ctx.require(np.array_equal(T, T0) and np.array_equal(S, S0), lambda: what + ": inputs modified")
    ctx.require(len(got) == 5, lambda: what + ": five arrays expected")
    t, s = [float(v) for v in T], [float(v) for v in S]
    want = R.simple(t, s) if det == "simple" else R.parabol(t, s)
    if det == "simple":
        tt = ss = 0.0
    else:
        gap = min(b - a for a, b in zip(t, t[1:])) if len(t) > 1 else 1.0
        eps = 1e-6 if S.dtype == np.float32 or T.dtype == np.float32 else 1e-12
        tt = 1e-7 * gap + eps * max(abs(v) for v in t)
        ss = 1e-7 * (max(s) - min(s)) + eps * max(abs(v) for v in s)
    for name, g, w, tol in zip(("maxima positions", "maxima values", "minima positions", "minima values"), got, want, (tt, ss, tt, ss)):
        g = np.asarray(g, float)
        ctx.require(g.shape == (len(w),) and (len(w) == 0 or np.max(np.abs(g - np.array(w))) <= tol),
                    lambda: "%s: %s are %s, expected %s" % (what, name, g.tolist()[:20], w[:20]))
    z, zw = np.asarray(got[4], float), R.zeros(s)
    ctx.require(z.shape == (len(zw),) and np.array_equal(z, zw), lambda: "%s: zero-crossings are %s, expected %s" % (what, z.tolist()[:20], zw[:20]))
    # alternation in time order
    m = sorted([(p, 1) for p in want[0]] + [(p, -1) for p in want[2]])
    assert all(a[1] != b[1] for a, b in zip(m, m[1:]))
    ctx.validate()
    ctx.state(det, len(S), tuple(R.turns(s)), tuple(zw))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


AXES = ("uniform", "uneven")


def words(case, ctx):
    S = np.array(case["word"], dtype=float)
    n = len(S)
    for det in ("simple", "parabol"):
        for ax in AXES:
            compare(ctx, det, G.SHORT_T[ax](n), S, "S=%s %s T=%s" % (case["word"], det, ax))


def scaled_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            for k in range(8):
                yield {"word": list(w), "variant": k}


def scaled(case, ctx):
    """Offsets, tiny and huge amplitudes, other axes and single precision."""
    w = np.array(case["word"], dtype=float)
    n = len(w)
    S, T = {
        0: (w * 1e-9, 1e-3 * np.arange(n)),
        1: (w * 1e7, 1e6 + 0.5 * np.arange(n)),
        2: (w * 0.1 + 3, G.SHORT_T["geometric"](n)),
        3: (w.astype(np.float32), np.arange(n, dtype=np.float32)),
        4: (w * np.pi, -5.0 + 3 * np.arange(n, dtype=float)),
        6: (w.astype(np.int64), np.arange(n)),
        7: ((w * 5).astype(np.int32), np.arange(n, dtype=float) * 2 - 3),
        5: (w - 1, np.cumsum(np.where(np.arange(n) % 2 == 0, 1.0, 40.0))),
    }[case["variant"]]
    for det in ("simple", "parabol"):
        compare(ctx, det, T, S, "%s %s" % (case, det))


def family_cases(ns):
    for n, name, ax in itertools.product(ns, G.FAMILIES, ("uniform", "uneven", "offset", "tiny")):
        yield {"family": name, "n": n, "axis": ax}


def families(case, ctx):
    S = G.make(case["family"], case["n"])
    T = G.SHORT_T[case["axis"]](case["n"])
    for det in ("simple", "parabol"):
        compare(ctx, det, T, S, "%s %s" % (case, det))
        compare(ctx, det, T, S - S[len(S) // 2], "%s %s shifted to touch zero" % (case, det))


def plateau_cases(lmax, widths):
    """All sequences of plateaus: levels from a small alphabet, every plateau of every width."""
    for k in range(3, lmax + 1):
        for lev in itertools.product((0, 1, -1), repeat=k):
            if any(a == b for a, b in zip(lev, lev[1:])):
                continue
            for ws in itertools.product(widths, repeat=k):
                yield {"levels": list(lev), "widths": list(ws)}


def plateaus(case, ctx):
    S = np.repeat(np.array(case["levels"], float), case["widths"])
    for det in ("simple", "parabol"):
        compare(ctx, det, G.SHORT_T["uneven"](len(S)) if det == "parabol" else np.arange(len(S), dtype=float), S, "%s %s" % (case, det))


class C03(core.Check):
    id = "C03"
    preload = ("PyEMD",)
    technique = "explicit enumeration of all signal words; every result compared with a run-based reference model"
    level_note = "All words over 3/4-letter alphabets to length 9/7 (11/9 thorough), all plateau sequences, long family members; exact comparison for simple detection, 1e-7 of the spacing for parabolic vertices."
    assumptions = ["floating-point samples (the decomposition converts integers first)", "magnitudes for which products of differences neither underflow nor overflow"]

    def spaces(self, tier):
        q = tier == "quick"
        w = [((0, 1), 2), ((-1, 0, 1), 3), ((-1, 0, 1), 4), ((-1, 0, 1), 5), ((-1, 0, 1), 6), ((-1, 0, 1), 7), ((-1, 0, 1), 8), ((-1, 0, 1), 9), ((-1, 0, 1, 2), 6), ((-1, 0, 1, 2), 7), ((0, 1), 13)]
        w += [] if q else [((-1, 0, 1), 10), ((-2, -1, 0, 1, 2), 7), ((-1, 0, 1, 2), 8), ((-1, 0, 1), 11), ((-1, 0, 1, 2), 9), ((0, 1), 17)]
        return [
            core.Space("words", lambda: word_cases(w), words, "every word of %s (alphabet, length) x 2 detections x 2 time axes" % (w,), block=16),
            core.Space("scaled", lambda: scaled_cases([((-1, 0, 2), 5), ((-1, 0, 1, 2), 6)] if q else [((-1, 0, 1, 2), 6), ((-1, 0, 1, 2), 7)]), scaled, "words x 8 amplitude/axis/precision variants", block=8),
            core.Space("negative-zeros", lambda: word_cases([((-1, -0.0, 0.0, 1), n) for n in range(3, 7 if q else 8)]), words, "every word with zeros of both signs", block=16),
            core.Space("nearly-flat", lambda: word_cases([((0, 1, 1 + 2.0**-k), n) for k in ((30, 45) if q else (20, 30, 38, 45)) for n in range(3, 7 if q else 8)]), words, "every word with letters that differ by less than a billionth", block=16),
            core.Space("plateaus", lambda: plateau_cases(5 if q else 6, (1, 2, 3, 4)), plateaus, "every plateau sequence, widths 1..4", block=8),
            core.Space("families", lambda: family_cases((2, 5, 16, 50, 300, 3000, 70000) if q else (2, 3, 5, 9, 16, 31, 50, 128, 300, 1000, 3000, 70000, 500000)), families, "families x 4 axes", block=1),
        ]


CHECK = C03()
