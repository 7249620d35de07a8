"""C10: noise has the right scale and kind, is reproducible by seed and fresh per trial."""
import itertools

import numpy as np

from mc import core, fakes, signals as G

INTS = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")


def width_cases():
    for dt in INTS:
        for shape in ("full", "positive", "negative", "small", "constant", "mid"):
            yield {"dtype": dt, "shape": shape}
    for dt in ("float32", "float64"):
        for shape in ("full", "positive", "negative", "small", "constant", "mid", "tiny", "offset"):
            yield {"dtype": dt, "shape": shape}


def width_signal(case):
    dt = np.dtype(case["dtype"])
    if dt.kind in "iu":
        lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
    else:
        lo, hi = -1024.0, 1024.0
    s = case["shape"]
    if s == "full":
        v = [lo, hi, 0, hi, lo, 1]
    elif s == "positive":
        v = [1, hi, 3, hi // 2, 0, 2]
    elif s == "negative":
        v = [lo, lo + 2, lo + 1, lo + 5, lo, lo + 3]
    elif s == "small":
        v = [0, 1, 0, 2, 1, 0]
    elif s == "constant":
        v = [5] * 6
    elif s == "tiny":
        v = [0, 1e-6, -1e-6, 5e-7, 0, 1e-6]
    elif s == "offset":
        v = [1024, 1025, 1024.5, 1026, 1024, 1025]
    else:
        v = [hi - 3, hi, hi - 1, hi - 2, hi - 3, hi]
    S = np.array(v, dtype=dt)
    return S, float(S.max()) - float(S.min())


def width(case, ctx):
    """The width handed to the random source, seen both at the source and in the decomposed trials."""
    from PyEMD import EEMD

    S, rng = width_signal(case)
    N = len(S)
    for w, kind, t in itertools.product((0.0, 0.05, 0.2, 1.0, 2.5), ("normal", "uniform"), (1, 3)):
        dec = fakes.ScriptedEMD([1])
        src = fakes.ScriptedRandom([G.lcg(N, 60 + i) for i in range(t)])
        e = EEMD(trials=t, noise_width=w, ext_EMD=dec, parallel=False, noise_kind=kind)
        fakes.plant(e, src)
        e.eemd(S)
        ctx.step(t)
        what = "%s noise_width=%g %s" % (case, w, kind)
        ctx.require(len(src.calls) >= 1 and all(c[0] == kind for c in src.calls), lambda: "%s: noise of kind %s" % (what, src.calls))
        for i, (s, _, _) in enumerate(dec.calls):
            unit = src.rows[i] if kind == "normal" else src.rows[i] / 2
            want = w * rng * unit
            got = np.asarray(s, float) - S.astype(float)
            tol = 1e-9 * (w * rng) + 1e-6 * (case["dtype"] == "float32") * w * rng + 1e-14 * float(np.max(np.abs(S.astype(float))))
            ctx.require(np.max(np.abs(got - want)) <= tol, lambda: "%s: trial noise %s, expected %s (range %g)" % (what, got.tolist(), want.tolist(), rng))
        ctx.validate()
        ctx.state(sorted(case.items()), w, kind, t)


def reuse_cases():
    shapes = [("float64", s) for s in ("full", "positive", "small", "constant", "tiny", "offset")] + [("int8", "full"), ("uint8", "mid"), ("int64", "small")]
    for cls, a, b in itertools.product(("EEMD", "CEEMDAN"), shapes, shapes):
        yield {"class": cls, "first": list(a), "second": list(b)}


def reuse(case, ctx):
    """The same object on two signals of equal length, its width, kind and number of trials changed in between or not."""
    import PyEMD

    a, b = (width_signal({"dtype": d, "shape": s}) for d, s in (case["first"], case["second"]))
    attr = "noise_width" if case["class"] == "EEMD" else "noise_scale"
    for w1, w2, k1, k2, t1, t2 in itertools.product((0.1, 1.0), (0.1, 2.5), ("normal", "uniform"), ("normal", "uniform"), (2,), (2, 3)):
        dec = fakes.ScriptedEMD([1])
        rows = [G.lcg(6, 60 + i) for i in range(5)]
        src = fakes.ScriptedRandom(rows)
        e = getattr(PyEMD, case["class"])(trials=t1, ext_EMD=dec, parallel=False, noise_kind=k1, **{attr: w1})
        fakes.plant(e, src)
        e(a[0])
        del dec.calls[:]
        src.next = 0
        e.trials, e.noise_kind = t2, k2
        setattr(e, attr, w2)
        e(b[0])
        ctx.step(t1 + t2)
        rng = b[1] if case["class"] == "EEMD" else 1.0
        ctx.require(len(dec.calls) >= t2, lambda: "%s: %d decompositions for %d trials" % (case, len(dec.calls), t2))
        for i in range(t2):
            unit = rows[i] if k2 == "normal" else rows[i] / 2
            got = np.asarray(dec.calls[i][0], float) - (b[0].astype(float) if case["class"] == "EEMD" else 0.0)
            ctx.require(np.max(np.abs(got - w2 * rng * unit)) <= 1e-9 * w2 * rng + 1e-14 * float(np.max(np.abs(b[0].astype(float)))), lambda: "%s: second run with width %g, %s noise and %d trials (before: %g, %s, %d): trial %d has noise %s" % (case, w2, k2, t2, w1, k1, t1, i, got.tolist()))
        ctx.validate()
        ctx.state(str(case), w1, w2, k1, k2, t2)


def kind_cases(seeds):
    for cls, kind, seed, scale in itertools.product(("EEMD", "CEEMDAN"), ("normal", "uniform"), seeds, (0.01, 1.0, 30.0)):
        yield {"class": cls, "kind": kind, "seed": seed, "scale": scale}


def kinds(case, ctx):
    """The distribution actually drawn (loose, deterministic per seed)."""
    import PyEMD

    e = getattr(PyEMD, case["class"])(trials=2, parallel=False, noise_kind=case["kind"])
    e.noise_seed(case["seed"])
    c = case["scale"]
    x = np.asarray(e.generate_noise(c, 20000), float) / c
    m = np.asarray(e.generate_noise(c, (3, 400)), float) / c
    ctx.step(2)
    ctx.require(x.shape == (20000,) and m.shape == (3, 400), lambda: "%s: shapes %s %s" % (case, x.shape, m.shape))
    ctx.require(abs(np.mean(x)) < 0.05, lambda: "%s: mean %g" % (case, np.mean(x)))
    if case["kind"] == "normal":
        ctx.require(abs(np.std(x) - 1) < 0.05 and np.max(np.abs(x)) > 2.8 and abs(np.mean(np.abs(x) < 1) - 0.6827) < 0.03, lambda: "%s: not normal with the requested deviation (std %g)" % (case, np.std(x)))
    else:
        ctx.require(np.max(x) <= 0.5 and np.min(x) >= -0.5 and np.max(x) > 0.49 and np.min(x) < -0.49 and abs(np.mean(np.abs(x) < 0.25) - 0.5) < 0.03, lambda: "%s: not uniform of the requested width" % case)
    for a, b in ((x[:400], m[0]), (m[0], m[1]), (m[1], m[2]), (x[:400], x[400:800])):
        ctx.require(not np.array_equal(a, b), lambda: "%s: noise repeats itself" % case)
    ctx.validate()
    ctx.state(sorted(case.items()))


def bad_cases():
    for cls, kind, late in itertools.product(("EEMD", "CEEMDAN"), ("", "Normal", "gauss", "uniforms", None, "white"), (False, True)):
        yield {"class": cls, "kind": kind, "late": late}


def bad(case, ctx):
    import PyEMD

    S = G.make("noise", 12)
    cls = getattr(PyEMD, case["class"])
    for call in ("generate", "run"):
        ctx.step()
        try:
            if case["late"]:
                e = cls(trials=2, parallel=False)
                e.noise_kind = case["kind"]
            else:
                e = cls(trials=2, parallel=False, noise_kind=case["kind"])
            e.generate_noise(1.0, 4) if call == "generate" else e(S)
        except ValueError:
            ctx.validate()
            continue
        ctx.fail("%s accepted (%s)" % (case, call))
    ctx.state(str(sorted(map(str, case.items()))))


OPS = ("run", "run2", "read", "seed")


def new(cls, trials=3, **kw):
    import PyEMD

    return getattr(PyEMD, cls)(trials=trials, parallel=False, MAX_ITERATION=10, **kw)


def do(e, op, seed):
    if op == "seed":
        e.noise_seed(seed)
        return None
    if op == "read":
        try:
            e.get_imfs_and_residue()
            if hasattr(e, "ensemble_mean"):
                e.ensemble_mean(), e.ensemble_std(), e.ensemble_count()
        except ValueError:
            pass
        return None
    return np.array(e(G.make("noise", 10) if op == "run" else G.make("two_tones", 14), None, 2))


def seq_cases(depth, seeds):
    for cls, seed in itertools.product(("EEMD", "CEEMDAN"), seeds):
        for d in range(1, depth + 1):
            for pre in itertools.product(("run", "run2"), repeat=min(2, d - 1)):
                for ops in itertools.product(OPS, repeat=d):
                    if any(o.startswith("run") for o in ops):
                        yield {"class": cls, "seed": seed, "before": list(pre), "ops": list(ops)}


def seqs(case, ctx):
    """After seeding, the same call sequence gives bit-identical results whatever happened before."""
    cls, seed = case["class"], case["seed"]
    outs = []
    for variant in range(3):
        if variant == 2 and cls == "CEEMDAN":
            e = new(cls, seed=seed)
        else:
            e = new(cls)
            if variant == 1:
                np.random.seed(99)
                e.noise_seed(seed + 1000)
                for o in case["before"]:
                    do(e, o, seed)
            e.noise_seed(seed)
        outs.append([do(e, o, seed) for o in case["ops"]])
        ctx.step(len(case["ops"]))
    runs = [[r for r in o if r is not None] for o in outs]
    for r in runs[1:]:
        ctx.require(len(r) == len(runs[0]) and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(r, runs[0])),
                    lambda: "%s: the same seed and calls give different results" % case)
    # the stream continues: no repetition unless reseeded in between, and reseeding restarts it
    since = {}
    for o, r in zip(case["ops"], outs[0]):
        if o == "seed":
            since = {}
        elif o.startswith("run"):
            if o in since:
                ctx.require(not np.array_equal(since[o], r), lambda: "%s: a repeated call repeats its noise" % case)
            since[o] = r
    e2 = new(cls)
    e2.noise_seed(seed + 1)
    first = next(o for o in case["ops"] if o.startswith("run"))
    ctx.require(not np.array_equal(do(e2, first, seed), runs[0][0]) , lambda: "%s: another seed gives the same result" % case)
    ctx.validate()
    ctx.state(cls, seed, case["before"], case["ops"])


SEEDS = (0, 1, 2, 3, 7, 255, 256, 257, 1000, 1001, 32767, 32768, 65535, 65536, 65537, 65543, 10**6, 2**20 + 7, 2**24 + 7, 2**31 - 1, 2**31, 2**31 + 7, 2**32 - 2, 2**32 - 1)


def seed_cases():
    for cls, kind, a in itertools.product(("EEMD", "CEEMDAN"), ("normal", "uniform"), SEEDS):
        yield {"class": cls, "kind": kind, "seed": a}


def seeds(case, ctx):
    """Every pair of differing seeds gives different noise; the same seed in any integer type the same."""
    def draw(seed, before=0, ctor=False):
        kw = {"seed": seed} if ctor else {}
        e = new(case["class"], noise_kind=case["kind"], **kw)
        if before:
            e.noise_seed(before)
            e.generate_noise(2.0, 5)
        if not ctor:
            e.noise_seed(seed)
        ctx.step()
        return np.asarray(e.generate_noise(1.0, 6), float)

    a = case["seed"]
    w = draw(a)
    for v in (draw(np.int64(a)), draw(np.uint32(a)), draw(a, before=4)) + ((draw(a, ctor=True),) if case["class"] == "CEEMDAN" else ()):
        ctx.require(np.array_equal(v, w), lambda: "%s: the same seed gives different noise" % case)
    for b in SEEDS:
        if b != a:
            ctx.require(not np.array_equal(draw(b), w), lambda: "%s: seed %d gives the same noise" % (case, b))
    ctx.validate()
    ctx.state(sorted(case.items()))


def weave_cases(k):
    for cls in ("EEMD", "CEEMDAN"):
        for same in (True, False):
            for pos in itertools.combinations(range(2 * k), k):
                yield {"class": cls, "same": same, "a_at": list(pos), "k": k}


def weave(case, ctx):
    """Interleaved use of two objects: each has its own stream."""
    cls, k = case["class"], case["k"]
    seeds = (3, 3 if case["same"] else 4)
    want = []
    for s in seeds:
        e = new(cls)
        e.noise_seed(s)
        want.append([do(e, "run", s) for _ in range(k)])
    objs = [new(cls), new(cls)]
    for o, s in zip(objs, seeds):
        o.noise_seed(s)
    got = [[], []]
    for i in range(2 * k):
        w = 0 if i in case["a_at"] else 1
        got[w].append(do(objs[w], "run", 0))
        ctx.step()
    for w in (0, 1):
        ctx.require(all(np.array_equal(a, b) for a, b in zip(got[w], want[w])), lambda: "%s: one object's noise stream depends on the other object" % case)
    ctx.validate()
    ctx.state(cls, case["same"], case["a_at"])


def fresh_cases(trials, seeds):
    for cls, t, seed, kind in itertools.product(("EEMD", "CEEMDAN"), trials, seeds, ("normal", "uniform")):
        yield {"class": cls, "trials": t, "seed": seed, "kind": kind}


def fresh(case, ctx):
    """No two trials of an ensemble, nor of consecutive ensembles, share their noise."""
    import PyEMD
    from PyEMD import EMD

    S = G.make("two_tones", 16)
    t = case["trials"]
    seen = []
    rec = fakes.RecordingEMD(EMD(MAX_ITERATION=8))
    e = getattr(PyEMD, case["class"])(trials=t, parallel=False, ext_EMD=rec, noise_kind=case["kind"])
    e.noise_seed(case["seed"])
    for call in range(2):
        rec.calls.clear()
        e(S, None, 1)
        ctx.step()
        calls = rec.calls[:t]  # EEMD: its trials; CEEMDAN: the noise decompositions come first
        ctx.require(len(calls) == t, lambda: "%s: %d noise realisations" % (case, len(calls)))
        for c in calls:
            x = c[0] - S if case["class"] == "EEMD" else c[0]
            ctx.require(np.ptp(x) > 0, lambda: "%s: a trial has no noise" % case)
            seen.append(x)
    keys = {x.tobytes() for x in seen}
    ctx.require(len(keys) == len(seen), lambda: "%s: %d noise realisations over two calls, only %d distinct" % (case, len(seen), len(keys)))
    # correlated copies (sign flipped or scaled noise) are not fresh either
    z = np.array([(x - x.mean()) / x.std() for x in seen])
    c = np.abs(z @ z.T / z.shape[1]) - 2 * np.eye(len(z))
    ctx.require(np.max(c) < 0.999999, lambda: "%s: two noise realisations are copies of each other up to sign and scale" % case)
    ctx.validate()
    ctx.state(sorted(case.items()))


def scale_cases():
    for s, kind, t in itertools.product((0.1, 1.0, 7.5), ("normal", "uniform"), (1, 2, 4)):
        yield {"scale": s, "kind": kind, "trials": t}


def cscale(case, ctx):
    """CEEMDAN's noise has the configured scale, independent of the signal."""
    from PyEMD import CEEMDAN, EMD

    for S in (G.make("two_tones", 16), 1e3 * G.make("noise", 12), np.round(50 * G.make("walk", 14)).astype("int16")):
        n, t = len(S), case["trials"]
        src = fakes.ScriptedRandom([G.lcg(n, 80 + i) for i in range(t)])
        rec = fakes.RecordingEMD(EMD(MAX_ITERATION=8))
        e = CEEMDAN(trials=t, parallel=False, ext_EMD=rec, noise_scale=case["scale"], noise_kind=case["kind"])
        fakes.plant(e, src)
        e(S, None, 1)
        ctx.step()
        ctx.require(src.next == t, lambda: "%s: %d noise rows drawn for %d trials" % (case, src.next, t))
        for i in range(t):
            unit = src.rows[i] * (1.0 if case["kind"] == "normal" else 0.5)
            ctx.require(np.max(np.abs(rec.calls[i][0] - case["scale"] * unit)) <= 1e-9 * case["scale"], lambda: "%s: noise realisation %d has the wrong scale" % (case, i))
        ctx.validate()
        ctx.state(sorted(case.items()), n)


class C10(core.Check):
    id = "C10"
    preload = ("PyEMD",)
    technique = "exhaustive enumeration of number types x value ranges with a scripted noise source, of seeded call histories, and of interleavings of two objects, on the real code"
    level_note = "10 number types x 6-8 extreme value patterns x widths x kinds; all call histories to depth 3 (4 thorough) over {run, other run, read, reseed} x seeds; all interleavings of 3+3 (4+4) calls on two objects."
    assumptions = ["noise is drawn from the object's own random source", "ensemble objects run serially here; parallel runs are C12's subject"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("width", width_cases, width, "number types x value ranges x widths x kinds x trials"),
            core.Space("reuse", reuse_cases, reuse, "two signals on one object, settings changed in between"),
            core.Space("ceemdan-scale", scale_cases, cscale, "noise scales x kinds x trials"),
            core.Space("kinds", lambda: kind_cases((0, 1, 2, 2**31) if q else range(40)), kinds, "classes x kinds x seeds x scales"),
            core.Space("bad-kind", bad_cases, bad, "unsupported kinds"),
            core.Space("histories", lambda: seq_cases(4 if q else 5, (0, 1) if q else (0, 1, 7, 2**32 - 1100)), seqs, "every call history"),
            core.Space("seeds", seed_cases, seeds, "every pair of 24 seeds across the whole admissible range x classes x kinds"),
            core.Space("two-objects", lambda: weave_cases(3 if q else 4), weave, "every interleaving of two objects' calls"),
            core.Space("fresh", lambda: fresh_cases((1, 2, 3, 8, 40), (0, 1, 5) if q else range(12)), fresh, "trials x seeds x kinds, two consecutive calls"),
        ]


CHECK = C10()
