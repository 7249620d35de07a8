"""C08: every run is a pure function of its input and configuration - over call histories and thread interleavings."""
import itertools
import os
import pickle
import random
import traceback

import numpy as np

from mc import core, sched, signals as G

PUBLIC = ("energy_ratio_thr", "std_thr", "svar_thr", "total_power_thr", "range_thr", "nbsym", "scale_factor", "spline_kind", "extrema_detection",
          "FIXE", "FIXE_H", "MAX_ITERATION", "trials", "noise_width", "separate_trends", "noise_kind", "parallel", "processes", "epsilon", "noise_scale", "beta_progress")

EMD_CFG = (dict(MAX_ITERATION=40), dict(extrema_detection="parabol", spline_kind="akima", FIXE=2), dict(spline_kind="slinear", nbsym=1, FIXE_H=2, MAX_ITERATION=25),
           dict(spline_kind="cubic_hermite", extrema_detection="parabol", nbsym=3, MAX_ITERATION=10))


def make(cls, i):
    import PyEMD

    if cls == "EMD":
        return PyEMD.EMD(**EMD_CFG[i])
    if cls == "EEMD":
        return PyEMD.EEMD(trials=2 + i, parallel=False, noise_width=0.2, separate_trends=bool(i % 2), noise_kind=("normal", "uniform")[i % 2], **dict(EMD_CFG[i], MAX_ITERATION=10))
    return PyEMD.CEEMDAN(trials=2 + i, parallel=False, epsilon=0.05 * (i + 1), beta_progress=bool(i % 2), **dict(EMD_CFG[i], MAX_ITERATION=10))


def make_all(cls, idx):
    """Fresh objects; those of class SHARED use one EMD object between them."""
    import PyEMD

    if cls == "SHARED":
        e = PyEMD.EMD(MAX_ITERATION=10, FIXE_H=1)
        objs = {0: e, 1: PyEMD.EEMD(trials=2, ext_EMD=e, parallel=False, noise_width=0.2), 2: PyEMD.CEEMDAN(trials=2, ext_EMD=e, parallel=False, epsilon=0.1),
                3: PyEMD.EEMD(trials=3, ext_EMD=e, parallel=False, separate_trends=True)}
        return objs
    return {i: make(cls, i) for i in idx}


# settings changed on a live object for one run: attribute (of the object, or EMD.attribute of its decomposer) -> value
SETTINGS = {
    "EMD": ({"FIXE": 3}, {"FIXE": 0, "FIXE_H": 1}, {"nbsym": 3}, {"spline_kind": "pchip"}, {"MAX_ITERATION": 3}, {"extrema_detection": "parabol"}, {"extrema_detection": "simple"}, {"range_thr": 0.8}, {"total_power_thr": 4.0}, {"std_thr": 5.0}, {"svar_thr": 0.5}, {"energy_ratio_thr": 0.9}),
    "EEMD": ({"trials": 4}, {"noise_width": 0.6}, {"separate_trends": True}, {"separate_trends": False}, {"noise_kind": "uniform"}, {"noise_kind": "normal"}, {"EMD.FIXE": 1}, {"EMD.nbsym": 3}),
    "CEEMDAN": ({"trials": 4}, {"epsilon": 0.4}, {"beta_progress": True}, {"beta_progress": False}, {"noise_scale": 3.0}, {"noise_kind": "uniform"}, {"range_thr": 0.9}, {"total_power_thr": 6.0}, {"EMD.FIXE": 1}),
}


def place(obj, path):
    return (obj.EMD, path[4:]) if path.startswith("EMD.") else (obj, path)


def signal(name):
    """(signal, time axis, component limit) of an operation."""
    name = name.split(":")[-1]
    if name == "short":
        return np.array([0.0, 2, -1, 3, 1, 1, -2, 0]), None, -1
    if name == "short2":
        return np.array([1.0, -2, 1, 0, 2, -1, -3, 4]), None, -1
    if name == "axis":
        return G.make("noise", 12), G.SHORT_T["uneven"](12), -1
    if name == "axis2":
        return G.make("noise", 12), np.arange(12, dtype=float), 2
    if name == "ints":
        return np.round(9 * G.make("walk", 12)).astype("int16"), np.arange(12), -1
    if name == "f32":
        return G.make("two_tones", 20).astype("float32"), None, 1
    if name == "wide":
        return G.make("walk", 15).astype("longdouble") / 3, None, -1
    if name == "limit1":
        return G.make("two_tones", 20), None, 1
    if name == "ramp":
        return np.arange(6.0), None, -1
    if name == "zeros":
        return np.zeros(8), None, -1
    if name == "tones":
        return G.make("three_tones_trend", 30), None, 3
    if name == "tonesfull":
        return G.make("three_tones_trend", 30), None, -1
    if name == "shortaxis":
        return np.array([0.0, 2, -1, 3, 1, 1, -2, 0]), np.array([0.0, 1, 3, 4, 7, 8, 9, 12]), -1
    if name == "shortlimit":
        return np.array([0.0, 2, -1, 3, 1, 1, -2, 0]), None, 1
    raise KeyError(name)


RUNS = ("short", "short2", "axis", "axis2", "ints", "f32", "limit1", "ramp", "zeros", "tones", "tonesfull", "shortaxis", "shortlimit", "wide")
FAILS = ("fail:length", "fail:repeat", "fail:none")
OTHER = ("read", "scribble", "blocks")


def run_op(obj, cls, name, seed=5):
    S, T, k = signal(name)
    if cls != "EMD":
        obj.noise_seed(seed)
    changed = {}
    if name.startswith("with:"):
        for path, v in SETTINGS[cls][int(name.split(":")[1])].items():
            o, a = place(obj, path)
            changed[path] = getattr(o, a)
            setattr(o, a, v)
    try:
        return S, T, obj(S, T, k)
    finally:
        for path, v in changed.items():
            o, a = place(obj, path)
            setattr(o, a, v)


def observe(obj, cls, out):
    imfs, res = obj.get_imfs_and_residue()
    extra = ()
    if cls == "EMD":
        t = obj.get_imfs_and_trend()
        extra = (np.array(t[0]), np.array(t[1]))
    elif cls == "EEMD":
        extra = (np.array(obj.ensemble_count()), np.array(obj.ensemble_std()))
    return [np.array(v) for v in (out, imfs, res) + extra]


def in_child(fn):
    """Result of fn in a forked process in which the package has not run anything yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = ("ok", fn())
            except BaseException:
                data = ("raised", traceback.format_exc(limit=-5))
            with os.fdopen(w, "wb") as f:
                pickle.dump(data, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


CLEAN = {}


def clean(cls, i, name):
    """What a fresh object gives in a fresh process."""
    key = (cls, i, name)
    if key not in CLEAN:
        def fn():
            if cls not in ("EMD", "EEMD", "CEEMDAN", "SHARED"):
                return plain(cls, i, name)
            o = make_all(cls, (i,))[i]
            c = type(o).__name__
            out = run_op(o, c, name)[2]
            return observe(o, c, out)

        CLEAN[key] = in_child(fn)
    kind, val = CLEAN[key]
    if kind != "ok":
        raise core.Violation("a fresh %s (configuration %d) fails on %s:\n%s" % (cls, i, name, val))
    return val


def equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.size and not np.array_equal(x, y, equal_nan=True):
            s = max(np.max(np.abs(x)), np.max(np.abs(y)))
            if not np.max(np.abs(x - y)) <= 1e-12 * s:
                return False
    return True


def history_cases(cls, objs, ops, depth):
    alphabet = [(o, op) for o in objs for op in ops]
    for d in range(1, depth + 1):
        for seq in itertools.product(alphabet, repeat=d):
            if seq[-1][1] in OTHER or seq[-1][1] in FAILS:
                continue  # only a run shows an effect of the history
            yield {"class": cls, "ops": [list(x) for x in seq]}


def config(obj):
    return {k: getattr(obj, k) for k in PUBLIC if hasattr(obj, k)}


def history(case, ctx):
    cls = case["class"]
    objs = make_all(cls, sorted({i for i, _ in case["ops"]}))
    cfg, kept, last = {k: config(o) for k, o in objs.items()}, [], {}
    rng0 = pickle.dumps(np.random.get_state())
    py0 = random.getstate()
    for step, (i, op) in enumerate(case["ops"]):
        o = objs[i]
        kind = type(o).__name__
        ctx.step()
        where = "%s history %s step %d" % (cls, case["ops"], step)
        if op.startswith("fail"):
            S = np.array([0.0, 1, -1, 2, 0, 1])
            bad = {"fail:length": np.arange(5.0), "fail:repeat": np.zeros(6), "fail:none": None}[op]
            try:
                if op == "fail:none":
                    o(None)
                else:
                    o(S, bad)
            except Exception:
                pass
        elif op == "read":
            for f in ("get_imfs_and_residue", "get_imfs_and_trend", "ensemble_mean", "ensemble_std", "ensemble_count"):
                try:
                    getattr(o, f, lambda: None)()
                except ValueError:
                    pass
        elif op == "blocks":
            if hasattr(o, "find_extrema"):
                T, S = np.arange(9.0), np.array([0.0, 3, 1, 4, 0, 2, -1, 5, 0])
                o.find_extrema(T, S)
                o.extract_max_min_spline(T, S)
            else:
                o.generate_noise(1.0, 5)
        elif op == "scribble":
            for S, T, out in last.get(i, ()):
                out[...] = 1e9
                S[...] = 7
        else:
            S, T, out = run_op(o, kind, op)
            s0, t0, _ = signal(op)
            ctx.require(np.array_equal(S, s0) and S.dtype == s0.dtype and (T is None or np.array_equal(T, t0)), lambda: where + ": the input arrays were modified")
            got = observe(o, kind, out)
            ctx.require(equal(got, clean(cls, i, op)), lambda: where + ": result differs from a fresh object's")
            arrays = [out] + list(o.get_imfs_and_residue())
            ctx.require(not any(np.shares_memory(a, S) for a in arrays if isinstance(a, np.ndarray)), lambda: where + ": the result aliases the input")
            if "scribble" not in [x[1] for x in case["ops"]]:
                kept.append((where, out, out.copy(), S, S.copy()))
            last.setdefault(i, []).append((S, T, out))
            ctx.validate()
            ctx.state(cls, i, op, tuple(tuple(x) for x in case["ops"][:step]))
        for k, v in cfg.items():
            ctx.require(config(objs[k]) == v, lambda: where + ": configuration values changed: %s" % config(objs[k]))
    for where, out, c, S, cs in kept:
        ctx.require(np.array_equal(out, c, equal_nan=True), lambda: where + ": the returned array was changed by a later call")
        ctx.require(np.array_equal(S, cs), lambda: where + ": the input array was changed by a later call")
    ctx.require(pickle.dumps(np.random.get_state()) == rng0 and random.getstate() == py0, lambda: "%s history %s: the global random state was changed" % (cls, case["ops"]))


# ---- inputs that agree in everything but their interior ----------------------------------------------------------

TWIN_S = {
    "base": [0.0, 2, -1, 3, 1, -2, 4, 0, 1, -3, 2, 0],
    "swap": [0.0, 2, -1, 3, 4, -2, 1, 0, 1, -3, 2, 0],  # the same values in another order (same sum, ends, extremes)
    "swap2": [0.0, 2, 3, -1, 1, -2, 4, 0, 1, -3, 2, 0],
    "sign": [0.0, 2, -1, 3, 1, 2, 4, 0, 1, -3, 2, 0],
    "one": [0.0, 2, -1, 3, 1, -2, 4, 0.5, 1, -3, 2, 0],
    "last": [0.0, 2, -1, 3, 1, -2, 4, 0, 1, -3, 2, 1],
}
TWIN_T = {
    "even": [0.0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
    "none": None,
    "inner": [0.0, 1, 1.25, 2.5, 3, 5.5, 6, 7.75, 8, 9.5, 10, 11],  # same ends
    "inner2": [0.0, 1, 2, 3.5, 4, 4.25, 6, 6.5, 8.75, 9, 10, 11],
    "sum": [0.0, 1, 2.5, 3, 4, 5, 6, 7, 7.5, 9, 10, 11],  # same ends and sum
    "first": [0.0, 0.5, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
    "scaled": [0.0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22],
}
TWIN_CFG = (dict(FIXE=2), dict(FIXE=2, extrema_detection="parabol", spline_kind="akima"), dict(FIXE=1, spline_kind="cubic_hermite", nbsym=3), dict(FIXE=1, extrema_detection="parabol", spline_kind="quadratic", nbsym=1),
            dict(FIXE=1, extrema_detection="parabol"), dict(FIXE=1, spline_kind="pchip"))
TWIN_LIMIT = (2, 2, 2, 2, 1, 1)  # limit 1 and a single sifting: the last thing looked at is the signal itself


def twin_cases(kinds):
    pairs = [(("base", t), ("base", u)) for t in TWIN_T for u in TWIN_T if t != u] + [((s, "even"), (u, "even")) for s in TWIN_S for u in TWIN_S if s != u]
    for cls, (a, b) in itertools.product(kinds, pairs):
        for i in range(len(TWIN_CFG) if cls == "EMD" else 1):
            for way in ("same-object", "other-object", "same-buffer"):
                yield {"class": cls, "cfg": i, "first": list(a), "second": list(b), "way": way}


def twin_object(cls, i):
    import PyEMD
    from PyEMD.EMD_matlab import EMD as Matlab

    if cls == "EMD":
        return PyEMD.EMD(**TWIN_CFG[i])
    if cls == "EEMD":
        return PyEMD.EEMD(trials=2, parallel=False, FIXE=1, noise_width=0.1, extrema_detection="parabol")
    if cls == "CEEMDAN":
        return PyEMD.CEEMDAN(trials=2, parallel=False, FIXE=1, epsilon=0.1)
    m = Matlab()
    m.FIXE = 2
    return m


def twin_run(o, cls, i, S, T):
    if cls == "matlab":
        r = o.emd(o, S, T, 3)
        return [np.array(r[0][k]) for k in sorted(r[0])]
    if cls != "EMD":
        o.noise_seed(3)
    return [np.array(v) for v in (o(S, T, TWIN_LIMIT[i]),) + tuple(o.get_imfs_and_residue())]


def twin_input(spec):
    t = TWIN_T[spec[1]]
    return np.array(TWIN_S[spec[0]]), None if t is None else np.array(t)


TWIN_CLEAN = {}


def twin_clean(cls, i, spec):
    key = cls, i, tuple(spec)
    if key not in TWIN_CLEAN:
        TWIN_CLEAN[key] = in_child(lambda: twin_run(twin_object(cls, i), cls, i, *twin_input(spec)))
    kind, val = TWIN_CLEAN[key]
    if kind != "ok":
        raise core.Violation("a fresh %s fails on %s:\n%s" % (cls, spec, val))
    return val


def twin(case, ctx):
    cls, i, way = case["class"], case["cfg"], case["way"]
    o = twin_object(cls, i)
    S, T = twin_input(case["first"])
    twin_run(o, cls, i, S, T)
    S2, T2 = twin_input(case["second"])
    if way == "other-object":
        o = twin_object(cls, i)
    elif way == "same-buffer":  # the caller refills the arrays it passed before
        S[...] = S2
        S2 = S
        if T is not None and T2 is not None:
            T[...] = T2
            T2 = T
    got = twin_run(o, cls, i, S2, T2)
    ctx.step(2)
    ctx.state(str(case))
    ctx.require(equal(got, twin_clean(cls, i, case["second"])), lambda: "%s: the second run differs from a fresh process's" % case)
    ctx.validate()


# ---- threads -------------------------------------------------------------------------------------------------

THREADS = {
    "EMD-same-length": (("EMD", 0, "short"), ("EMD", 0, "short2")),
    "EMD-other-length": (("EMD", 0, "short"), ("EMD", 0, "ints")),
    "EMD-parabol": (("EMD", 1, "axis"), ("EMD", 1, "axis2")),
    "EMD-mixed": (("EMD", 2, "short2"), ("EMD", 3, "axis")),
    "EMD-hermite": (("EMD", 3, "short"), ("EMD", 3, "short2")),
    "EEMD": (("EEMD", 0, "short"), ("EEMD", 0, "short2")),
    "EEMD-trends": (("EEMD", 1, "short2"), ("EEMD", 1, "short")),
    "CEEMDAN": (("CEEMDAN", 0, "short2"), ("CEEMDAN", 0, "short")),
    "CEEMDAN-EMD": (("CEEMDAN", 0, "short"), ("EMD", 0, "short2")),
}


# Short runs of every spline kind and detection with envelopes of three or four knots, and the other decomposers.
KINDS = ("cubic", "akima", "pchip", "cubic_hermite", "linear", "slinear", "quadratic")
SPARSE = {"a": np.array([0.0, 3, -1, 2, 0]), "b": np.array([0.0, 1, 5, -4, -3, 2, 1, 0]), "c": np.array([2.0, -1, 0, 0, -3, 1, 4, 2])}
for _k, _d in itertools.product(KINDS, ("simple", "parabol")):
    THREADS["sparse-%s-%s" % (_k, _d)] = (("sparse", (_k, _d), "a"), ("sparse", (_k, _d), "b"))
THREADS["sparse-kinds"] = (("sparse", ("cubic", "simple"), "c"), ("sparse", ("pchip", "simple"), "c"))
THREADS["sparse-detections"] = (("sparse", ("cubic", "parabol"), "b"), ("sparse", ("cubic", "simple"), "b"))
THREADS["matlab"] = (("matlab", "cubic", "a"), ("matlab", "cubic", "c"))
THREADS["matlab-emd"] = (("matlab", "akima", "b"), ("sparse", ("akima", "simple"), "b"))
THREADS["emd2d"] = (("emd2d", 0, "p"), ("emd2d", 0, "q"))
THREADS["bemd"] = (("bemd", 0, "p"), ("bemd", 0, "q"))
THREADS["checks"] = (("checks", 0, "p"), ("checks", 1, "q"))
THREADS["compact"] = (("compact", 0, "p"), ("compact", 1, "q"))


def plain(cls, i, name):
    """Decomposers without the common call interface, and the pure functions."""
    if cls == "sparse":
        import PyEMD

        e = PyEMD.EMD(spline_kind=i[0], extrema_detection=i[1], nbsym=1, FIXE=2)
        S = SPARSE[name]
        return [np.array(v) for v in (e(S.copy(), np.cumsum(1.0 + (np.arange(len(S)) % 2)), 2),) + e.get_imfs_and_residue()]
    if cls == "matlab":
        from PyEMD.EMD_matlab import EMD

        e = EMD()
        e.splineKind, e.FIXE, e.nbsym = i, 2, 1
        r = e.emd(e, SPARSE[name].copy(), None, 2)
        return [np.array(r[0][k]) for k in sorted(r[0])] + [np.array([r[2][k] for k in sorted(r[2])])]
    y, x = np.indices((7, 6))
    img = np.sin(2.0 * x + 0.3) * np.cos(1.9 * y) * 5 if name == "p" else np.cos(1.7 * x - y) * 4 + 0.3 * y
    if cls == "emd2d":
        from PyEMD.EMD2d import EMD2D

        return [np.array(EMD2D(FIXE=1)(img, 1))]
    if cls == "bemd":
        from PyEMD.BEMD import BEMD

        return [np.array(BEMD()(img, 1))]
    if cls == "checks":
        from PyEMD.checks import whitenoise_check

        return [np.array(sorted(whitenoise_check(img, ("apriori", "aposteriori")[i]).items()))]
    from PyEMD.compact import filt6, pade6

    return [np.array(filt6(img[:, 0].copy(), 0.2)), np.array(pade6(img[:, 1].copy(), 0.5))]


def thread_fn(spec):
    cls, i, name = spec
    if cls not in ("EMD", "EEMD", "CEEMDAN"):
        return lambda: plain(cls, i, name)

    def fn():
        o = make(cls, i)
        return observe(o, cls, run_op(o, cls, name)[2])

    return fn


def count_points(pair, kinds):
    s = sched.Sched([thread_fn(p) for p in pair], [], sched.package_prefix(), kinds)
    s.run()
    return s.points


def play(ctx, pair, segments, kinds, what):
    s = sched.Sched([thread_fn(p) for p in pair], segments, sched.package_prefix(), kinds)
    res = s.run()
    ctx.step(s.switches + 1)
    for p, r in zip(pair, res):
        ctx.require(r is not None and r[0] == "ok", lambda: "%s schedule %s: thread %s %s" % (what, segments, p, r and r[1]))
        ctx.require(equal(r[1], clean(*p)), lambda: "%s schedule %s: the thread decomposing %s got a different result than alone" % (what, segments, p))
    ctx.validate()
    ctx.state(what, segments)


def one_cases(points, chunk):
    """Every single preemption: thread `a` runs i points, the other one runs to completion, then `a` finishes."""
    for name, pts in points.items():
        for a in (0, 1):
            for lo in range(1, pts[a] + 1, chunk):
                yield {"pair": name, "first": a, "from": lo, "to": min(lo + chunk, pts[a] + 1)}


def one(case, ctx):
    pair, a = THREADS[case["pair"]], case["first"]
    for i in range(case["from"], case["to"]):
        play(ctx, pair, [[a, i], [1 - a, 10**9]], ("line",), case["pair"])


def two_cases(points):
    """Every pair of preemption points: a runs i, the other runs j, a finishes, the other finishes."""
    for name, pts in points.items():
        for a in (0, 1):
            for i in range(1, pts[a] + 1):
                yield {"pair": name, "first": a, "i": i, "points": pts[1 - a]}


def two(kinds):
    def fn(case, ctx):
        pair, a = THREADS[case["pair"]], case["first"]
        for j in range(1, case["points"] + 1):
            play(ctx, pair, [[a, case["i"]], [1 - a, j], [a, 10**9]], kinds, case["pair"])

    return fn


class C08(core.Check):
    id = "C08"
    preload = ("PyEMD", "scipy.interpolate", "PyEMD.EMD_matlab", "PyEMD.EMD2d", "PyEMD.BEMD", "PyEMD.checks", "PyEMD.compact")
    technique = "exhaustive exploration of call histories (depth-bounded, failing and scribbling calls included) and of thread interleavings at source-line granularity (preemption-bounded) on the real code"
    level_note = "Every history of up to 4 (5 thorough) calls over 2 objects x operations per class, each run compared with a fresh object in a fresh process; plus histories in which settings are changed on live objects and in which four objects share one decomposer; every 1-preemption line schedule of about 30 thread pairs (all spline kinds, both detections, the 2-D and helper modules) and every 2-preemption call-level schedule (line-level thorough) of the main pairs."
    assumptions = ["threads use their own objects", "interleaving points are source lines of the package; C extensions are atomic under the GIL"]

    def spaces(self, tier):
        q = tier == "quick"
        # oracles are computed in processes that have not run anything else
        withs = {c: tuple("with:%d:%s" % (k, s) for k in range(len(v)) for s in ("short", "tonesfull")) for c, v in SETTINGS.items()}
        for pair in THREADS.values():
            for spec in pair:
                try:
                    clean(*spec)
                except core.Violation:
                    pass
        shared = ("short", "shortaxis", "tonesfull", "f32", "limit1")
        for cls, idx in (("EMD", (0, 1, 2, 3)), ("EEMD", (0, 1)), ("CEEMDAN", (0, 1)), ("SHARED", (0, 1, 2, 3))):
            for i, name in itertools.product(idx, RUNS + withs.get(cls, ())):
                if cls in ("CEEMDAN", "SHARED") and name == "zeros":
                    continue
                try:
                    clean(cls, i, name)
                except core.Violation:
                    pass  # reported by the case that needs it
        ens = tuple(r for r in RUNS if r != "zeros")
        small = ("short", "short2", "axis", "f32", "fail:length", "scribble")
        sp = []
        sp.append(core.Space("emd-depth2", lambda: history_cases("EMD", (0, 1, 2), RUNS + FAILS + OTHER, 2), history, "all 2-call histories over 3 objects x 20 operations", block=8))
        sp.append(core.Space("emd-deep", lambda: history_cases("EMD", (0, 1), small, 4 if q else 5), history, "all histories over 2 objects x 6 operations", block=16))
        for cls in ("EEMD", "CEEMDAN"):
            sp.append(core.Space(cls.lower() + "-depth2", lambda cls=cls: history_cases(cls, (0, 1), ens + FAILS + OTHER, 2), history, "all 2-call histories over 2 objects", block=4))
            sp.append(core.Space(cls.lower() + "-deep", lambda cls=cls: history_cases(cls, (0, 1), small, 3 if q else 4), history, "all 3-call (4 thorough) histories over 2 objects", block=8))
        for cls, idx in (("EMD", (0, 1)), ("EEMD", (0, 1)), ("CEEMDAN", (0, 1))):
            sp.append(core.Space(cls.lower() + "-settings", lambda cls=cls, idx=idx: history_cases(cls, idx[:1] if cls == "EMD" else idx, ("short", "tonesfull") + withs[cls], 2), history, "all 2-call histories with settings changed in between", block=4))
        sp.append(core.Space("shared-decomposer", lambda: history_cases("SHARED", (0, 1, 2, 3), shared, 2 if q else 3), history, "all histories of four objects that share one EMD object", block=4))
        for cls, cfgs in (("EMD", range(len(TWIN_CFG))), ("EEMD", (0,)), ("CEEMDAN", (0,)), ("matlab", (0,))):
            for i, spec in itertools.product(cfgs, [("base", t) for t in TWIN_T] + [(s, "even") for s in TWIN_S if s != "base"]):
                try:
                    twin_clean(cls, i, spec)
                except core.Violation:
                    pass
        sp.append(core.Space("twins", lambda: twin_cases(("EMD", "EEMD", "CEEMDAN", "matlab")), twin, "every ordered pair of inputs that agree in length, ends, sums or extremes, on one object, on two, and in one refilled buffer", block=16))
        kinds2 = ("call",) if q else ("line",)
        names2 = ("EMD-same-length", "EMD-parabol", "EMD-hermite", "EEMD") if q else ("EMD-same-length", "EMD-parabol")
        try:
            pts1 = {n: in_child(lambda p=p: count_points(p, ("line",)))[1] for n, p in THREADS.items()}
            pts2 = {n: in_child(lambda n=n: count_points(THREADS[n], kinds2))[1] for n in names2}
        except Exception:
            pts1 = pts2 = {}
        sp.append(core.Space("threads-1-preemption", lambda: one_cases(pts1, 8), one, "every line-level single-preemption schedule of %d thread pairs" % len(THREADS)))
        sp.append(core.Space("threads-2-preemptions", lambda: two_cases(pts2), two(kinds2), "every %s-level two-preemption schedule" % kinds2[0], timeout=300))
        return sp


CHECK = C08()
