"""C07: time axis and number type never change what is decomposed."""
import itertools

import numpy as np

from mc import core, ref_emd as E, signals as G

DT = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "longdouble")


def decomp(ctx, S, T, kw, max_imf=-1):
    from PyEMD import EMD

    ctx.step()
    e = EMD(**kw)
    e.emd(S, T, max_imf=max_imf)
    imfs, res = e.get_imfs_and_residue()
    return np.asarray(imfs, float), np.asarray(res, float)


def same(a, b, rel=1e-9):
    scale = max([1e-300] + [np.max(np.abs(v)) for v in a + b if v.size])
    return all(x.shape == y.shape and (x.size == 0 or np.max(np.abs(x - y)) <= rel * scale) for x, y in zip(a, b))


def must_match(ctx, base, other, S, T, kw, max_imf, what, loose=False):
    """`other` is the decomposition under changed time/type; it must equal `base` up to rounding knife edges."""
    if same(base, other):
        ctx.validate()
        return
    if loose:  # the moved axis itself is rounded: positions that coincide exactly on one axis need not on the other
        for seed in (1, 2, 3, 4):
            if not same(base, decomp(ctx, S, T + 1e-8 * G.lcg(len(T), seed), kw, max_imf), 1e-5):
                ctx.skip()
                return
    v, _ = E.verdict(other[0], other[1], np.asarray(S, float), T, kw, lambda: E.ImplBlocks(**kw), max_imf, rel=1e-6)
    if v in ("ok", "knife-edge"):
        ctx.skip()
        return
    ctx.fail("%s: %s" % (what, v))


KW = ({"MAX_ITERATION": 60}, {"FIXE": 2}, {"FIXE_H": 2, "MAX_ITERATION": 60}, {"spline_kind": "akima", "MAX_ITERATION": 30}, {"spline_kind": "slinear", "FIXE": 3})
# axes whose normalisation is exact in floating point: base axis on a dyadic grid with smallest step 1
DYADIC = {
    "ones": lambda n: np.arange(n, dtype=float),
    "mixed": lambda n: np.concatenate(([0.0], np.cumsum(1.0 + (np.arange(n - 1) % 3) * 0.5))),
    "gaps": lambda n: np.concatenate(([0.0], np.cumsum(np.where(np.arange(n - 1) % 4 == 1, 6.0, 1.0)))),
}
AFFINE = ((0.0, 2.0), (16.0, 1.0), (-64.0, 0.25), (1024.0, 8.0), (-0.5, 2.0**-20), (2.0**20, 2.0**-6), (3.0, 2.0**30))
LOOSE = ((0.1, 0.3), (-7.3, 1e-6), (1e3, 3.7e4), (12345.678, 0.01))
WEIRD = {
    "linspace": lambda n: np.linspace(0, 1, n), "squares": lambda n: np.arange(n, dtype=float) ** 2, "ints": lambda n: np.arange(n) * 7 - 3,
    "uneven": G.SHORT_T["uneven"], "tiny": G.SHORT_T["tiny"], "float32": lambda n: np.linspace(-3, 5, n).astype("float32"),
}


def axis(ctx, S, what):
    n = len(S)
    for kw in KW:
        for k in (-1, 2):
            base = decomp(ctx, S, None, dict(kw), k)
            T0 = np.arange(n, dtype=float)
            for name, f in WEIRD.items():
                T = f(n)
                o = decomp(ctx, S, T, dict(kw), k)
                must_match(ctx, base, o, S, T0, kw, k, "%s %s simple detection, T=%s" % (what, kw, name))
        pk = dict(kw, extrema_detection="parabol")
        base = decomp(ctx, S, None, pk)
        for T in (np.arange(n), np.arange(n, dtype="int16"), np.arange(n, dtype=float), np.arange(n, dtype=float) + 5, np.arange(n) * 2):
            o = decomp(ctx, S, T, pk)
            must_match(ctx, base, o, S, np.arange(n, dtype=float), pk, -1, "%s %s omitted axis vs consecutive integers" % (what, pk))
        for name, f in DYADIC.items():
            T = f(n)
            base = decomp(ctx, S, T, pk)
            for a, b in AFFINE + LOOSE:
                o = decomp(ctx, S, a + b * T, pk)
                must_match(ctx, base, o, S, T, pk, -1, "%s %s axis %s moved to %g + %g T" % (what, pk, name, a, b), loose=(a, b) in LOOSE)
            ctx.state(n, name, len(base[0]), np.round(base[0], 6).tobytes())


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def axis_words(case, ctx):
    axis(ctx, np.array(case["word"], float), "S=%s" % case["word"])


def fam_cases(ns):
    for n, name in itertools.product(ns, G.FAMILIES):
        yield {"family": name, "n": n}


def axis_fams(case, ctx):
    axis(ctx, G.make(case["family"], case["n"]), str(case))


def swap(S):
    return S.astype(S.dtype.newbyteorder())


LAYOUTS = {
    "list-step": lambda S: np.repeat(S, 2)[::2], "column": lambda S: np.stack([S, S[::-1], S], axis=1)[:, 0], "negative": lambda S: S[::-1].copy()[::-1],
    "swapped": swap, "fortran": lambda S: np.asfortranarray(np.stack([S, S]))[0], "readonly": lambda S: np.frombuffer(S.tobytes(), dtype=S.dtype),
    "offset": lambda S: np.concatenate((S[:1], S))[1:], "unaligned": lambda S: np.frombuffer(b"x" + S.tobytes(), dtype=S.dtype, offset=1),
}


def type_words(case, ctx):
    vals = np.array(case["word"])
    types(ctx, vals, "S=%s" % case["word"])


def types(ctx, vals, what):
    """vals: integer values.  Every integer type that holds them equals float64; every layout equals contiguous."""
    n = len(vals)
    for kw in ({"MAX_ITERATION": 60}, {"extrema_detection": "parabol", "MAX_ITERATION": 60}, {"FIXE": 2, "spline_kind": "pchip"}):
        T0 = np.arange(n, dtype=float)
        base = decomp(ctx, vals.astype(float), None, kw)
        for dt in DT[:8]:
            if vals.min() < np.iinfo(dt).min or vals.max() > np.iinfo(dt).max:
                continue
            for T in (None, np.arange(n), np.arange(n, dtype=float)):
                o = decomp(ctx, vals.astype(dt), T, kw)
                must_match(ctx, base, o, vals, T0, kw, -1, "%s %s as %s, T %s" % (what, kw, dt, None if T is None else T.dtype))
        for dt in ("float64", "float32", "int32", "int16"):
            S = vals.astype(dt)
            b = decomp(ctx, S, None, kw)
            for name, f in LAYOUTS.items():
                L = f(S)
                assert np.array_equal(L, S)
                o = decomp(ctx, L, None, kw)
                ctx.require(same(b, o), lambda: "%s %s %s layout %s differs from the contiguous array" % (what, kw, dt, name))
                Tl = f(np.arange(n, dtype=float))
                o = decomp(ctx, S, Tl, kw)
                if dt == "float64":
                    ctx.require(same(b, o), lambda: "%s %s time axis layout %s differs from the contiguous array" % (what, kw, name))
                ctx.validate()
        ctx.state(n, tuple(kw.items()), np.round(base[0], 6).tobytes())


def long_cases(lens):
    for n, dt in itertools.product(lens, ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64")):
        yield {"n": n, "dtype": dt}


def longs(case, ctx):
    """Signals longer than their own number type can count."""
    n = case["n"]
    t = np.arange(n) / n
    vals = np.round(50 + 35 * np.sin(2 * np.pi * 5 * t) + 12 * np.cos(2 * np.pi * 17 * t))
    kw = {"FIXE": 2}
    S = vals.astype(case["dtype"])
    for det in ("simple", "parabol"):
        k = dict(kw, extrema_detection=det)
        base = decomp(ctx, vals, None, k, 2)
        o = decomp(ctx, S, None, k, 2)
        must_match(ctx, base, o, vals, np.arange(n, dtype=float), k, 2, "%s %s: components differ from those of the float64 signal" % (case, det))
        if case["dtype"] == "int64":  # one of the types is enough for the axis
            if det == "simple":
                for name in ("linspace", "squares", "ints"):
                    o = decomp(ctx, vals, WEIRD[name](n), k, 2)
                    must_match(ctx, base, o, vals, np.arange(n, dtype=float), k, 2, "%s simple detection, T=%s" % (case, name))
            else:
                for a, b in ((0.0, 2.0), (-64.0, 0.25), (2.0**20, 2.0**-6)):
                    o = decomp(ctx, vals, a + b * np.arange(n), k, 2)
                    must_match(ctx, base, o, vals, np.arange(n, dtype=float), k, 2, "%s parabol: axis moved to %g + %g T" % (case, a, b))
    ctx.validate()
    ctx.state(n, case["dtype"], len(base[0]))


def timeline_cases(lens):
    for dt in DT + ("none",):
        for n in lens:
            if dt == "float16" and n > 1 << 24:
                continue
            yield {"dtype": dt, "n": n}


def timeline(case, ctx):
    from PyEMD.utils import get_timeline

    n = case["n"]
    dt = None if case["dtype"] == "none" else np.dtype(case["dtype"])
    t = get_timeline(n, dt) if dt is not None else get_timeline(n)
    ctx.step()
    ctx.require(t.shape == (n,), lambda: "get_timeline%s has shape %s" % (case, t.shape))
    ctx.require(np.array_equal(t.astype("int64"), np.arange(n, dtype="int64")) and np.all(t == np.floor(t)), lambda: "get_timeline%s does not count 0,1,2,..." % case)
    if dt is not None:
        ctx.require(t.dtype.itemsize >= dt.itemsize and (t.dtype.kind == "f") == (dt.kind == "f"), lambda: "get_timeline%s has type %s" % (case, t.dtype))
    if n < 300:  # the caller may do with it what he likes
        t[:] = 1
        t = get_timeline(n, dt) if dt is not None else get_timeline(n)
        ctx.require(np.array_equal(t.astype("int64"), np.arange(n, dtype="int64")), lambda: "get_timeline%s does not count 0,1,2,... once an earlier timeline was changed" % case)
    ctx.validate()
    ctx.state(case["dtype"], n)


def unify_cases():
    for a, b in itertools.product(DT, DT):
        yield {"x": a, "y": b}


def unify(case, ctx):
    from PyEMD.utils import unify_types

    for _ in range(2):  # twice: the type lookup is cached
        x, y = np.array([0, 1, 100, 3]).astype(case["x"]), np.array([5, 2, 7]).astype(case["y"])
        kx, ky = x.copy(), y.copy()
        a, b = unify_types(x, y)
        ctx.step()
        ctx.require(a.dtype == b.dtype, lambda: "unify_types%s gives %s and %s" % (case, a.dtype, b.dtype))
        ctx.require(np.can_cast(x.dtype, a.dtype, "safe") and np.can_cast(y.dtype, a.dtype, "safe") or a.dtype == np.promote_types(x.dtype, y.dtype),
                    lambda: "unify_types%s loses values: %s" % (case, a.dtype))
        ctx.require(np.array_equal(a, kx) and np.array_equal(b, ky) and np.array_equal(x, kx) and np.array_equal(y, ky), lambda: "unify_types%s changed values" % case)
    ctx.validate()
    ctx.state(case["x"], case["y"], str(a.dtype))


def error_cases(n):
    for det in ("simple", "parabol"):
        for m in range(0, 2 * n + 1):
            if m != n:
                yield {"det": det, "n": n, "m": m}
    for i, dt in itertools.product(range(n - 1), ("float64", "int64", "int8")):
        yield {"det": "parabol", "repeat": i, "n": n, "dtype": dt}


def errors(case, ctx):
    from PyEMD import EMD

    n = case["n"]
    S = G.lcg(n, 4)
    for cls in (lambda: EMD(extrema_detection=case["det"]),):
        for call in ("emd", "__call__"):
            e = cls()
            ctx.step()
            if "m" in case:
                try:
                    getattr(e, call)(S, np.arange(case["m"], dtype=float))
                except ValueError:
                    ctx.validate()
                    continue
                ctx.fail("time axis of %d values for %d samples accepted" % (case["m"], n))
            else:
                T = np.arange(n).astype(case["dtype"])
                T[case["repeat"] + 1 :] -= 1
                try:
                    getattr(e, call)(S, T)
                except AssertionError:
                    ctx.validate()
                    continue
                ctx.fail("repeated time value at %d accepted: %s" % (case["repeat"], T.tolist()))
    ctx.state(sorted(case.items()))


def ens_cases(ns):
    for n, name, det in itertools.product(ns, ("noise", "two_tones", "steps", "noisy_ramp"), ("simple", "parabol")):
        yield {"family": name, "n": n, "det": det}


def ensembles(case, ctx):
    """The ensemble methods treat an omitted axis like consecutive integers, and integers like floats."""
    from PyEMD import CEEMDAN, EEMD

    vals = np.round(20 * G.make(case["family"], case["n"]))
    n = len(vals)
    for cls in (EEMD, CEEMDAN):
        outs = []
        for S, T in ((vals, None), (vals, np.arange(n)), (vals, np.arange(n, dtype=float)), (vals, np.arange(n) * 4 + 8), (vals.astype("int16"), None), (vals.astype("int64"), np.arange(n))):
            e = cls(trials=3, parallel=False, extrema_detection=case["det"], MAX_ITERATION=40)
            e.noise_seed(7)
            outs.append(e(S, T, 3))
            ctx.step()
        for i, o in enumerate(outs[1:]):
            ok = o.shape == outs[0].shape and np.max(np.abs(o - outs[0])) <= 1e-8 * np.max(np.abs(vals))
            ctx.require(ok, lambda: "%s %s: variant %d of the time axis/number type changes the result" % (cls.__name__, case, i + 1))
        ctx.validate()
        ctx.state(cls.__name__, sorted(case.items()), outs[0].shape)


class C07(core.Check):
    id = "C07"
    preload = ("PyEMD",)
    technique = "metamorphic exhaustive exploration: every word/family x every time-axis transformation, number type and memory layout, on the real code"
    level_note = "All words over 3 letters to length 6 (7 thorough) and 21 families x 6 axes, 11 affine maps, 8 integer types, 8 layouts; timelines for every length to 2100 and around every power of two to 2^24 for 11 types."
    assumptions = ["strictly increasing time positions", "float16 signals excluded from decomposition (solver does not support them)", "differences explained by a rounding knife edge (reference variants disagree) are counted, not judged"]

    def spaces(self, tier):
        q = tier == "quick"
        W = [((-1, 0, 2), 3), ((-1, 0, 2), 4), ((-1, 0, 2), 5)] + ([((-1, 0, 2), 6)] if q else [((-1, 0, 2), 6), ((0, 1), 9), ((-1, 0, 2), 7)])
        lens = sorted(set(range(1, 2101)) | {2**k + d for k in range(11, 23 if q else 25) for d in range(-3, 4)} | {3 * 2**k + 1 for k in range(8, 20)})
        return [
            core.Space("timeline", lambda: timeline_cases(lens), timeline, "every length 1..2100 and around powers of two x 12 number types", block=16),
            core.Space("unify", unify_cases, unify, "every pair of number types"),
            core.Space("errors", lambda: itertools.chain(error_cases(4), error_cases(9)), errors, "every wrong length and every repeated position"),
            core.Space("axis-words", lambda: word_cases(W), axis_words, "every word x time axes x affine maps x 5 configurations"),
            core.Space("axis-families", lambda: fam_cases((6, 12, 20, 30, 60) if q else (6, 8, 10, 12, 16, 20, 30, 60, 90, 150, 300)), axis_fams, "families x time axes x affine maps"),
            core.Space("type-words", lambda: word_cases([((0, 1, 3), 4), ((-1, 0, 2), 5)] + ([((0, 1, 3), 6)] if q else [((0, 1, 3), 6), ((-1, 0, 2), 7)])), type_words, "every word x integer types x layouts"),
            core.Space("types-long", lambda: long_cases((127, 128, 129, 130, 255, 256, 257, 258, 300, 513, 1025, 2049, 5000, 10001) + ((32769, 65537) if q else (4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000))), longs, "lengths around the limits of the small integer types"),
            core.Space("ensembles", lambda: ens_cases((16, 40) if q else (10, 16, 40, 100)), ensembles, "EEMD and CEEMDAN x axis/type variants"),
        ]


CHECK = C07()
