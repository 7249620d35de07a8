"""C02: component limit, prefix consistency and the separated accessors of EMD."""
import itertools

import numpy as np

from mc import core, signals as G


def close(a, b, scale=1.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or np.max(np.abs(a - b)) <= 1e-9 * scale + 1e-12)


def not_run_raises(ctx, e, what):
    for name in ("get_imfs_and_residue", "get_imfs_and_trend"):
        f = getattr(e, name, None)
        if f is None:
            continue
        ctx.step()
        try:
            f()
        except ValueError:
            continue
        ctx.fail("%s: %s before any run did not raise ValueError" % (what, name))


def accessors(ctx, e, S, out, what):
    """The accessors describe the run that produced `out`; returns (imfs, residue)."""
    imfs, res = e.get_imfs_and_residue()
    imfs, res = np.array(imfs), np.array(res)
    timfs, trend = e.get_imfs_and_trend()
    imfs2, res2 = e.get_imfs_and_residue()
    ctx.step(3)
    scale = max(1.0, np.max(np.abs(S)), np.max(np.abs(out)) if out.size else 0)
    n = len(S)
    ctx.require(imfs.ndim == 2 and imfs.shape[1] == n and res.shape == (n,), lambda: "%s: accessor shapes %s %s" % (what, imfs.shape, res.shape))
    ctx.require(close(imfs.sum(axis=0) + res, S, scale), lambda: "%s: components and residue do not add up to the signal" % what)
    # residue row present exactly when the residue is not numerically zero
    zero = np.max(np.abs(res)) <= 1e-8
    want = imfs if zero else np.vstack((imfs, res))
    if abs(np.max(np.abs(res)) - 1e-8) > 1e-12:
        ctx.require(close(out, want, scale), lambda: "%s: returned rows (%s) are not the components%s (%s)" % (
            what, out.shape, "" if zero else " followed by the residue", want.shape))
    t = np.vstack((timfs, np.reshape(trend, (1, -1)))) if np.size(timfs) else np.reshape(trend, (1, -1))
    ctx.require(np.shape(trend) == (n,), lambda: "%s: trend has shape %s" % (what, np.shape(trend)))
    if len(out):
        ctx.require(close(t, out, scale), lambda: "%s: components and trend are not the returned rows" % what)
    else:
        ctx.require(len(timfs) == 0 and close(trend, res), lambda: "%s: trend of an all-zero decomposition" % what)
    ctx.require(np.array_equal(imfs, imfs2) and np.array_equal(res, res2), lambda: "%s: reading the accessors changed them" % what)
    return imfs, res


def limits(ctx, S, kw, what, ks=None, T=None):
    from PyEMD import EMD

    e = EMD(**kw)
    not_run_raises(ctx, e, what)
    out = e.emd(S, T)
    ctx.step()
    full, _ = accessors(ctx, e, S, out, what + " no limit")
    scale = max(1.0, np.max(np.abs(S)), np.max(np.abs(full)) if full.size else 0)
    ctx.state(kw.get("extrema_detection"), out.shape, len(full), np.round(full, 5).tobytes())
    for k in ks or range(1, len(full) + 2):
        for call in (0, 1):
            e2 = EMD(**kw)
            o = e2.emd(S, T, max_imf=k) if call == 0 else e2(S, T=T, max_imf=np.int64(k))
            ctx.step()
            w = what + " max_imf=%d" % k
            part, _ = accessors(ctx, e2, S, o, w)
            ctx.require(len(part) <= k, lambda: "%s: %d components exceed the limit" % (w, len(part)))
            ctx.require(len(part) <= len(full) and close(part, full[: len(part)], scale),
                        lambda: "%s: components are not the first ones of the unlimited run" % w)
            if len(part) < min(k, len(full)):
                # only a final component that no longer oscillates may be left to the residue
                m = len(part)
                ext = EMD(**kw).find_extrema(np.arange(len(S), dtype=float), full[m]) if m < len(full) else None
                few = ext is not None and len(ext[0]) + len(ext[2]) <= 2
                ctx.require(m == k - 1 and few and not kw.get("FIXE"), lambda: "%s: only %d of %d oscillatory components returned" % (w, m, min(k, len(full))))
        ctx.validate()
    # a negative limit means all
    e3 = EMD(**kw)
    o = e3.emd(S, T, max_imf=-1)
    ctx.require(close(o, out, scale), lambda: "%s: max_imf=-1 differs from no limit" % what)
    # what the caller does with the returned rows does not reach the accessors
    before = [np.array(v) for v in e.get_imfs_and_residue() + e.get_imfs_and_trend()]
    out[...] = 7.25
    after = list(e.get_imfs_and_residue() + e.get_imfs_and_trend())
    ctx.require(all(np.array_equal(a, b) for a, b in zip(before, after)), lambda: "%s: changing the returned array changes what the accessors give" % what)
    ctx.validate()


CFGS = (dict(), dict(extrema_detection="parabol"), dict(FIXE=1), dict(FIXE=5), dict(FIXE_H=2), dict(spline_kind="akima", nbsym=1, MAX_ITERATION=60), dict(MAX_ITERATION=4),
        dict(range_thr=1e-8, total_power_thr=1e-8, MAX_ITERATION=30))


def word_cases(specs):
    for alphabet, n in specs:
        for w in G.tuples(alphabet, n):
            yield {"word": list(w)}


def words(case, ctx):
    S = np.array(case["word"], dtype=float)
    for kw in CFGS[:7]:
        limits(ctx, S, kw, "S=%s %s" % (case["word"], kw))


def family_cases(ns, amps):
    for n, name, amp, i in itertools.product(ns, G.FAMILIES, amps, range(len(CFGS))):
        if n >= 64 and amp < 1e-3 and CFGS[i].get("MAX_ITERATION", 1000) > 100 and not CFGS[i].get("FIXE"):
            continue  # tiny amplitudes never meet the IMF test: a thousand siftings per component, covered at small n
        yield {"family": name, "n": n, "amp": amp, "cfg": i}


def families(case, ctx):
    S = G.make(case["family"], case["n"], case["amp"])
    kw = CFGS[case["cfg"]]
    T = G.SHORT_T["uneven"](len(S)) if kw.get("extrema_detection") == "parabol" else None
    limits(ctx, S, kw, "%s %s" % (case, kw), T=T)


def long_cases(ns):
    for n, name, i in itertools.product(ns, ("noise", "walk", "three_tones_trend", "chirp", "quantised", "offset_tone", "square"), (2, 6, 8)):
        yield {"family": name, "n": n, "cfg": i}


def long(case, ctx):
    S = G.make(case["family"], case["n"])
    kw = (CFGS + (dict(extrema_detection="parabol", spline_kind="akima", FIXE=2),))[case["cfg"]]
    limits(ctx, S, kw, "%s %s" % (case, kw), ks=(1, 2, 5, 11))


def offset_cases(ns, amps, offs):
    for n, name, a, c in itertools.product(ns, ("alternating", "tone", "square", "word"), amps, offs):
        yield {"n": n, "shape": name, "amp": a, "offset": c}


def offsets(case, ctx):
    """Large oscillations over a small remainder: whether it is a row of its own depends on its own size only."""
    n = case["n"]
    base = {"alternating": (-1.0) ** np.arange(n), "tone": np.sin(np.arange(n) * np.pi / 4), "square": np.sign(np.sin((np.arange(n) + 0.5) * np.pi / 3)),
            "word": np.resize(np.array([0.0, 1.0, 0.0, -1.0]), n)}[case["shape"]]
    S = case["amp"] * base + case["offset"]
    for kw in (dict(FIXE=1), dict(FIXE=2, nbsym=1), dict(MAX_ITERATION=8)):
        limits(ctx, S, kw, "%s %s" % (case, kw), ks=(1, 3))


DEEP = (("noise", 90, "slinear", 40), ("noise", 180, "pchip", 40), ("noise", 260, "pchip", 40), ("quantised", 260, "pchip", 40), ("am", 180, "pchip", 40), ("noise", 1500, "pchip", 10), ("walk", 1500, "pchip", 10),
        ("noise", 260, "pchip", 100), ("am", 260, "pchip", 100))


def deep_cases(ks):
    for (name, n, kind, fixe), k in itertools.product(DEEP, ks):
        yield {"family": name, "n": n, "kind": kind, "FIXE": fixe, "k": k}


def deep(case, ctx):
    """Decompositions into more than a dozen components."""
    kw = dict(spline_kind=case["kind"], FIXE=case["FIXE"], range_thr=0.0, total_power_thr=0.0)
    limits(ctx, G.make(case["family"], case["n"]), kw, str(case), ks=(case["k"],))


def reuse_cases(ns):
    names = ["noise", "ramp", "zero", "square", "walk", "tone", "constant"]
    for n in ns:
        for a in names:
            for b in names:
                for k in (-1, 1, 2):
                    yield {"first": a, "second": b, "n": n, "k": k}


def reuse(case, ctx):
    """The accessors always describe the most recent run of the object."""
    from PyEMD import EMD

    e = EMD()
    for name, n, k in ((case["first"], case["n"], -1), (case["second"], case["n"] + 9, case["k"])):
        S = G.make(name, n)
        out = e.emd(S, max_imf=k)
        ctx.step()
        accessors(ctx, e, S, out, "%s" % case)
    ctx.validate()
    ctx.state(case["second"], case["k"], out.shape)


def fresh_cases():
    for cls in ("EMD", "EEMD", "CEEMDAN"):
        yield {"class": cls}


def fresh(case, ctx):
    import PyEMD

    kw = {} if case["class"] == "EMD" else {"parallel": False}
    not_run_raises(ctx, getattr(PyEMD, case["class"])(**kw), case["class"])
    ctx.state(case["class"])


class C02(core.Check):
    id = "C02"
    preload = ("PyEMD",)
    technique = "bounded exhaustive exploration of signals x component limits x accessor calls, differential against the unlimited run"
    level_note = "All words over 3-letter alphabets to length 6 (7 thorough) and all family members, each under every limit from 1 to one beyond the full count, in 8 configurations."
    assumptions = ["finite signals, nbsym >= 1, MAX_ITERATION >= 2"]

    def spaces(self, tier):
        q = tier == "quick"
        ns = (4, 8, 24, 64, 128) if q else (3, 4, 6, 8, 15, 24, 40, 64, 160, 400, 900)
        return [
            core.Space("fresh", fresh_cases, fresh, "3 decomposers before any run"),
            core.Space("words", lambda: word_cases([((0, 1), 2), ((-1, 0, 2), 3), ((-1, 0, 2), 4), ((-1, 0, 2), 5), ((0, 1, 3), 6)] + ([] if q else [((-1, 0, 2), 7), ((-1, 0, 1, 3), 6)])), words, "every word x 7 configurations x every limit"),
            core.Space("families", lambda: family_cases(ns, (1.0, 1e-3, 1e-7) if q else (1.0, 1e-2, 1e-3, 1e-5, 1e-7, 30.0)), families, "families x lengths %s x amplitudes x 8 configurations x every limit" % (ns,)),
            core.Space("long", lambda: long_cases((300, 700) if q else (300, 700, 2000, 5000)), long, "longer signals x 3 configurations x limits", timeout=300),
            core.Space("offsets", lambda: offset_cases((8, 16, 17) if q else (5, 8, 16, 17, 33, 64), (1.0, 1e3, 1e6, 1e9), (0.0, 1e-9, 1e-7, 1e-6, 1e-4, -1e-3, 0.5, 300.0)), offsets, "large oscillations over small remainders"),
            core.Space("deep", lambda: deep_cases((3, 9, 11, 12, 13, 14, 16, 17, 20, 33) if q else tuple(range(1, 36))), deep, "decompositions into many components x limits", timeout=300),
            core.Space("reuse", lambda: reuse_cases((24,) if q else (12, 24, 70)), reuse, "two-run histories on one object"),
        ]


CHECK = C02()
