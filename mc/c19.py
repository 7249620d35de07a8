"""C19: settings mean the same however they are given; display, call style and copying never change a result."""
import contextlib
import copy
import io
import itertools
import logging
import pickle

import numpy as np

from mc import core, signals as G

SIGNALS = {
    "word": lambda: np.array([0.0, 2, -1, 3, 1, 1, -2, 0, 1, -3, 2, 2, -1]),
    "tones": lambda: G.make("three_tones_trend", 40),
    "noise": lambda: G.make("noise", 30),
    "walk": lambda: 5 * G.make("walk", 33),
    "quantised": lambda: G.make("quantised", 24),
    "small": lambda: 0.02 * G.make("two_tones", 50),
    "ramp": lambda: G.make("noisy_ramp", 30),
}

EMD_SETTINGS = (
    ("spline_kind", "akima"), ("spline_kind", "slinear"), ("spline_kind", "pchip"), ("nbsym", 1), ("nbsym", 4), ("extrema_detection", "parabol"), ("FIXE", 2), ("FIXE", 7), ("FIXE_H", 3),
    ("MAX_ITERATION", 3), ("energy_ratio_thr", 5.0), ("std_thr", 1e4), ("svar_thr", 100.0), ("total_power_thr", 9.0), ("range_thr", 1.6),
)
EMD_DEFAULTS = dict(spline_kind="cubic", nbsym=2, extrema_detection="simple", FIXE=0, FIXE_H=0, MAX_ITERATION=1000, energy_ratio_thr=0.2, std_thr=0.2, svar_thr=0.001, total_power_thr=0.005, range_thr=0.001)
OWN = {
    "EEMD": (("trials", 3), ("noise_width", 0.4), ("noise_kind", "uniform"), ("separate_trends", True)),
    "CEEMDAN": (("trials", 3), ("epsilon", 0.3), ("noise_scale", 4.0), ("noise_kind", "uniform"), ("beta_progress", False), ("range_thr", 1.2), ("total_power_thr", 9.0)),
}
BASE = {"EMD": {"MAX_ITERATION": 40}, "EEMD": {"trials": 2, "parallel": False, "noise_width": 0.2, "MAX_ITERATION": 15}, "CEEMDAN": {"trials": 2, "parallel": False, "epsilon": 0.1, "MAX_ITERATION": 15}}


def cls_of(name):
    import PyEMD

    return getattr(PyEMD, name)


def result(o, S, T=None, k=-1):
    if not isinstance(o, cls_of("EMD")):
        o.noise_seed(4)
    out = [np.array(o(S, T, k))]
    out += [np.array(v) for v in o.get_imfs_and_residue()]
    if hasattr(o, "ensemble_count"):
        out += [np.array(o.ensemble_count()), np.array(o.ensemble_std())]
    return out


def equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and (x.size == 0 or np.max(np.abs(x - y)) <= 1e-12 * max(1e-300, np.max(np.abs(x)))) for x, y in zip(a, b))


def subsets(settings, size):
    for r in range(size + 1):
        for c in itertools.combinations(settings, r):
            if len({k for k, _ in c}) == r:
                yield [list(x) for x in c]


def emd_cases(size):
    for s in subsets(EMD_SETTINGS, size):
        yield {"settings": s}


def emd_settings(case, ctx):
    kw = dict(BASE["EMD"], **dict(case["settings"]))
    EMD = cls_of("EMD")
    effect = False
    for name, make in SIGNALS.items():
        S = make()
        T = G.SHORT_T["uneven"](len(S)) if kw.get("extrema_detection") == "parabol" else None
        want = result(EMD(**kw), S, T)
        what = "EMD %s on %s" % (kw, name)
        e = EMD()
        for k, v in kw.items():
            setattr(e, k, v)
        ctx.require(equal(result(e, S, T), want), lambda: what + ": assigned to the object the settings act differently than passed to the constructor")
        e = EMD(FIXE=9, nbsym=3, spline_kind="quadratic", range_thr=0.7, std_thr=3.0)
        for k, v in dict(EMD_DEFAULTS, **kw).items():
            setattr(e, k, v)
        ctx.require(equal(result(e, S, T), want), lambda: what + ": settings assigned over earlier ones act differently")
        ctx.require(equal(result(EMD(**dict(reversed(list(dict(EMD_DEFAULTS, **kw).items())))), S, T), want), lambda: what + ": spelling out the defaults changes the result")
        if {"spline_kind", "nbsym"} & set(kw):
            rest = {k: v for k, v in kw.items() if k not in ("spline_kind", "nbsym")}
            ctx.require(equal(result(EMD(kw.get("spline_kind", "cubic"), kw.get("nbsym", 2), **rest), S, T), want), lambda: what + ": positional arguments act differently")
        ctx.step(4)
        ctx.validate(3)
        ctx.state(str(case), name, [v.shape for v in want])
        effect = effect or not equal(result(EMD(**BASE["EMD"]), S, T), want)
    if len(case["settings"]) == 1:
        ctx.require(effect, lambda: "EMD %s: the setting has no effect on any signal" % kw)


def ens_cases(size):
    for cls in OWN:
        for s in subsets(EMD_SETTINGS, size):
            yield {"class": cls, "emd": s, "own": []}
        for s in subsets(OWN[cls], size + 1):
            yield {"class": cls, "emd": [], "own": s}
        for a, b in itertools.product(EMD_SETTINGS, OWN[cls]):
            if a[0] != b[0]:
                yield {"class": cls, "emd": [list(a)], "own": [list(b)]}


OTHERS = ("FIXE", "FIXE_H", "nbsym", "spline_kind", "extrema_detection", "std_thr", "svar_thr", "energy_ratio_thr", "range_thr", "total_power_thr", "MAX_ITERATION", "DTYPE")


def ens_settings(case, ctx):
    """The decomposer's settings reach the trials; own settings act alike in both ways; a passed decomposer wins."""
    name, emd, own = case["class"], dict(case["emd"]), dict(case["own"])
    cls, EMD = cls_of(name), cls_of("EMD")
    base = BASE[name]
    bown = {k: v for k, v in base.items() if k != "MAX_ITERATION"}
    both = {k: v for k, v in dict(own, **emd).items() if k in ("range_thr", "total_power_thr") and name == "CEEMDAN"}  # names that both objects have
    inner = dict({"MAX_ITERATION": 15}, **dict(emd, **both))
    outer = dict(bown, **dict(own, **both))
    effect = False
    for sname in ("word", "tones", "walk", "noise", "ramp"):
        S = SIGNALS[sname]()
        what = "%s emd=%s own=%s on %s" % (name, emd, own, sname)
        want = result(cls(**dict(base, **dict(own, **emd))), S)
        ctx.require(equal(result(cls(ext_EMD=EMD(**inner), **outer), S), want), lambda: what + ": settings passed through do not act like those of a passed decomposer")
        e = cls(parallel=False)
        for k, v in outer.items():
            setattr(e, k, v)
        for k, v in inner.items():
            setattr(e.EMD, k, v)
        ctx.require(equal(result(e, S), want), lambda: what + ": settings assigned afterwards act differently")
        x = EMD(**inner)
        other = dict(FIXE=1, FIXE_H=2, nbsym=5, spline_kind="slinear", extrema_detection="parabol", std_thr=77.0, svar_thr=78.0, energy_ratio_thr=79.0, MAX_ITERATION=3, DTYPE=np.float32)
        if name == "EEMD":
            other.update(range_thr=80.0, total_power_thr=81.0)
        if inner.get("extrema_detection") == "parabol":
            other["extrema_detection"] = "simple"
        before = {k: getattr(x, k) for k in OTHERS}
        e = cls(ext_EMD=x, **dict(outer, **other))
        ctx.require(equal(result(e, S), want), lambda: what + ": the passed decomposer was not used as it is")
        after = {k: getattr(x, k) for k in OTHERS}
        ctx.require(before == after, lambda: what + ": the passed decomposer's settings were changed from %s to %s" % (before, after))
        ctx.step(4)
        ctx.validate(3)
        ctx.state(str(case), sname)
        effect = effect or not equal(result(cls(**base), S), want)
    if own == {"noise_scale": 4.0, "beta_progress": False}:  # normalisation hides the scale otherwise
        ref = [result(cls(**dict(base, beta_progress=False)), SIGNALS[s]()) for s in ("tones", "walk")]
        ctx.require(any(not equal(result(cls(**dict(base, **own)), SIGNALS[s]()), r) for s, r in zip(("tones", "walk"), ref)), "CEEMDAN: noise_scale has no effect on any signal")
    if len(own) == 1 and not emd and "noise_scale" not in own:
        ctx.require(effect, lambda: "%s %s: the setting has no effect on any signal" % (name, own))
    if len(emd) == 1 and not own and set(emd) & {"spline_kind", "nbsym", "extrema_detection", "FIXE", "FIXE_H", "MAX_ITERATION"}:
        ctx.require(effect, lambda: "%s %s: the decomposer's setting has no effect on any signal" % (name, emd))


def default_cases():
    yield {"class": "EEMD", "explicit": {"trials": 100, "noise_width": 0.05, "separate_trends": False, "noise_kind": "normal", "ext_EMD": None}}
    yield {"class": "CEEMDAN", "explicit": {"trials": 100, "epsilon": 0.005, "noise_scale": 1.0, "noise_kind": "normal", "beta_progress": True, "seed": None, "ext_EMD": None}}


def defaults(case, ctx):
    """Documented defaults, singly and together, change nothing."""
    cls = cls_of(case["class"])
    S = SIGNALS["word"]()
    want = result(cls(parallel=False, MAX_ITERATION=15), S)
    for keys in [[k] for k in case["explicit"]] + [list(case["explicit"])]:
        got = result(cls(parallel=False, MAX_ITERATION=15, **{k: case["explicit"][k] for k in keys}), S)
        ctx.step()
        ctx.require(equal(got, want), lambda: "%s: spelling out the default of %s changes the result" % (case["class"], keys))
        ctx.state(case["class"], keys)
    e = cls(parallel=False)
    d = {k: getattr(e, k) for k in case["explicit"] if hasattr(e, k)}
    ctx.require(all(d[k] == case["explicit"][k] for k in d), lambda: "%s: defaults are %s" % (case["class"], d))
    if case["class"] == "CEEMDAN":
        for seed in (0, 1, 7, 65536, 2**32 - 1):
            e = cls(trials=3, parallel=False, MAX_ITERATION=15)
            e.noise_seed(seed)
            got = np.array(cls(trials=3, parallel=False, MAX_ITERATION=15, seed=seed)(S))
            ctx.require(equal([got], [np.array(e(S))]), lambda: "CEEMDAN: seed %d acts differently when passed to the constructor" % seed)
            ctx.step(2)
    ctx.validate()


STYLES = ("call-positional", "call-keywords", "method-positional", "method-keywords", "progress", "method-progress", "debug-log", "warning-log", "progress-log")


def style_cases():
    for name, style, sig, k, t in itertools.product(("EMD", "EEMD", "CEEMDAN"), STYLES, ("word", "tones", "noise"), (-1, 1, 3), (False, True)):
        if name == "EMD" and "progress" in style:
            continue
        yield {"class": name, "style": style, "signal": sig, "limit": k, "axis": t}


@contextlib.contextmanager
def logs(level):
    """The package's loggers at the given level, written to memory."""
    h = logging.StreamHandler(io.StringIO())
    root = logging.getLogger()
    old = root.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    root.setLevel(level)
    try:
        yield
    finally:
        root.removeHandler(h)
        root.setLevel(old[0])
        logging.disable(old[1])


def styles(case, ctx):
    name, style, k = case["class"], case["style"], case["limit"]
    S = SIGNALS[case["signal"]]()
    T = G.SHORT_T["uneven"](len(S)) if case["axis"] else None
    kw = dict(BASE[name], extrema_detection="parabol") if case["axis"] else BASE[name]
    plain = cls_of(name)(**kw)
    want = result(plain, S, T, k)
    then = np.array(plain(S, T, k))
    if style.endswith("-log"):
        with logs(logging.DEBUG if style != "warning-log" else logging.WARNING):
            o = cls_of(name)(**kw)
            if name != "EMD":
                o.noise_seed(4)
            with contextlib.redirect_stderr(io.StringIO()):
                out = o(S, T, k, **({"progress": True} if "progress" in style else {}))
    else:
        o = cls_of(name)(**kw)
        if name != "EMD":
            o.noise_seed(4)
        f = o if style.startswith(("call", "progress")) else getattr(o, name.lower())
        with contextlib.redirect_stderr(io.StringIO()):
            if style.endswith("progress"):
                out = f(S, T, k, progress=True)
            elif style.endswith("keywords"):
                out = f(max_imf=np.int64(k), T=T, S=S)
            else:
                out = f(S, T, k)
    ctx.step()
    ctx.require(equal([np.array(out)], want[:1]) and equal([np.array(v) for v in o.get_imfs_and_residue()], want[1:3]), lambda: "%s: the result differs from the plain call's" % case)
    ctx.require(equal([np.array(o(S, T, k))], [then]), lambda: "%s: the next call's result differs" % case)
    ctx.validate()
    ctx.state(str(case))


def display_cases(trials, limits):
    for t, k, thr, verbose in itertools.product(trials, limits, (1e-2, 1e-6, 0.0), (False, True)):
        yield {"trials": t, "limit": k, "thr": thr, "log": verbose}


def displays(case, ctx):
    """Long runs (many components, many trials) with progress display and verbose logging."""
    from mc.c11 import Halving

    S = SIGNALS["word"]()
    for name in ("EEMD", "CEEMDAN"):
        own = {"separate_trends": False, "noise_width": 0.1} if name == "EEMD" else {"range_thr": case["thr"], "total_power_thr": case["thr"], "epsilon": 0.1}
        outs = []
        for progress in (False, True):
            dec = Halving() if name == "CEEMDAN" else cls_of("EMD")(FIXE=1)
            o = cls_of(name)(trials=case["trials"], parallel=False, ext_EMD=dec, **own)
            o.noise_seed(4)
            with contextlib.redirect_stderr(io.StringIO()), logs(logging.DEBUG) if progress and case["log"] else contextlib.nullcontext():
                outs.append([np.array(o(S, None, case["limit"], progress=progress))] + [np.array(v) for v in o.get_imfs_and_residue()])
            outs[-1].append(np.array(o(S, None, 1)))  # goes on with the same random stream
        ctx.step(4)
        ctx.require(equal(*outs), lambda: "%s %s: progress display or logging changed the result" % (name, case))
        ctx.validate()
        ctx.state(name, str(case))


def copy_cases():
    for name, way, when in itertools.product(("EMD", "EEMD", "CEEMDAN", "EMD2D", "BEMD", "matlab"), ("deepcopy", "pickle0", "pickle2", "pickle5"), ("fresh", "run", "seeded-run")):
        yield {"class": name, "way": way, "when": when}


def build(name):
    if name == "EMD2D":
        from PyEMD.EMD2d import EMD2D

        return EMD2D(FIXE=2, mean_thr=0.5)
    if name == "BEMD":
        from PyEMD.BEMD import BEMD

        b = BEMD()
        b.FIXE = 2
        return b
    if name == "matlab":
        from PyEMD.EMD_matlab import EMD

        m = EMD()
        m.FIXE, m.nbsym = 3, 1
        return m
    return cls_of(name)(**dict(BASE[name], FIXE=3, nbsym=1, spline_kind="akima"))


def use(o, name, which):
    if name in ("EMD2D", "BEMD"):
        y, x = np.indices((9, 8))
        return [np.array(o(5 * np.sin(1.9 * x + which) * np.cos(2.1 * y) + 0.3 * y, 2))]
    S = SIGNALS[("word", "tones")[which]]()
    if name == "matlab":
        r = o.emd(o, S, None, 4)
        return [np.array(r[0][k]) for k in sorted(r[0])]
    return [np.array(o(S))] + [np.array(v) for v in o.get_imfs_and_residue()]


def copies(case, ctx):
    """A copied or pickled object behaves like the original from then on, random stream included, and separately from it."""
    name = case["class"]
    a, b = build(name), build(name)
    for o in (a, b):
        if hasattr(o, "noise_seed"):
            o.noise_seed(6)
        if case["when"] != "fresh":
            use(o, name, 0)
        if case["when"] == "seeded-run" and hasattr(o, "noise_seed"):
            o.noise_seed(8)
    c = copy.deepcopy(a) if case["way"] == "deepcopy" else pickle.loads(pickle.dumps(a, int(case["way"][-1])))
    if case["when"] != "fresh" and hasattr(a, "get_imfs_and_residue"):
        ctx.require(equal([np.array(v) for v in c.get_imfs_and_residue()], [np.array(v) for v in a.get_imfs_and_residue()]), lambda: "%s: the copy does not know the last run" % case)
    want = [use(b, name, w) for w in (1, 0)]
    got = [use(c, name, w) for w in (1, 0)]
    orig = [use(a, name, w) for w in (1, 0)]
    ctx.step(6)
    for g, w, o in zip(got, want, orig):
        ctx.require(equal(g, w), lambda: "%s: the copy gives another result than an uncopied object" % case)
        ctx.require(equal(o, w), lambda: "%s: using the copy changed the original" % case)
    ctx.validate(2)
    ctx.state(str(case))


SET2D = (("mse_thr", 0.2), ("mean_thr", 0.3), ("FIXE", 2), ("FIXE_H", 3), ("MAX_ITERATION", 2), ("MAX_ITERATION", 5))


def flat_cases():
    for s in subsets(SET2D, 3):
        yield {"settings": s}


def flat(case, ctx):
    """EMD2D's settings in both ways."""
    from PyEMD.EMD2d import EMD2D

    kw = dict(case["settings"])
    y, x = np.indices((10, 9))
    for i, img in enumerate((np.sin(1.9 * x + 0.3) * np.cos(2.1 * y) + 0.1 * y, 30 * G.lcg(90, 3).reshape(10, 9), np.round(6 * np.sin(1.7 * (x + y))))):
        want = np.array(EMD2D(**kw)(img, 2))
        e = EMD2D()
        for k, v in kw.items():
            setattr(e, k, v)
        ctx.require(equal([np.array(e(img, 2))], [want]), lambda: "EMD2D %s image %d: assigned settings act differently than passed ones" % (kw, i))
        full = dict(dict(mse_thr=0.01, mean_thr=0.01, FIXE=0, FIXE_H=0, MAX_ITERATION=1000), **kw)
        ctx.require(equal([np.array(EMD2D(**full).emd(image=img, max_imf=2))], [want]), lambda: "EMD2D %s image %d: spelling out the defaults changes the result" % (kw, i))
        ctx.step(3)
        ctx.state(str(case), i)
    ctx.validate()


class C19(core.Check):
    id = "C19"
    preload = ("PyEMD", "PyEMD.EMD_matlab", "PyEMD.EMD2d", "PyEMD.BEMD", "scipy.interpolate")
    technique = "exhaustive enumeration of settings combinations x ways of giving them x signals, and of call styles, displays and copies, each execution of the real code compared with the reference way"
    level_note = "All combinations of up to 2 (3 thorough) of 15 decomposer settings in five ways on six signals, and on both ensembles together with their own settings in four ways; all call styles, progress and logging settings; deep and pickled copies in three states of six classes. Every single setting must also have an effect."
    assumptions = ["range_thr and total_power_thr passed to CEEMDAN apply to both the ensemble and its decomposer, as the code documents"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("defaults", default_cases, defaults, "documented defaults spelled out"),
            core.Space("emd-settings", lambda: emd_cases(2 if q else 3), emd_settings, "settings combinations x ways x signals"),
            core.Space("ensemble-settings", lambda: ens_cases(1 if q else 2), ens_settings, "decomposer and own settings of both ensembles"),
            core.Space("call-styles", style_cases, styles, "call styles x progress x logging"),
            core.Space("displays", lambda: display_cases((1, 3, 12, 120) if q else (1, 2, 3, 7, 12, 33, 120, 260), (-1, 1, 2, 10, 11, 30) if q else (-1,) + tuple(range(1, 40))), displays, "many components and trials with progress display and logging"),
            core.Space("copies", copy_cases, copies, "copies and pickles"),
            core.Space("emd2d-settings", flat_cases, flat, "settings of EMD2D"),
        ]


CHECK = C19()
