"""C15: plots show every component once, with correct instantaneous frequency."""
import itertools

import numpy as np

from mc import core, signals as G


def figure(ctx, call):
    """Run a plotting call; returns [(x, y)] per axis in order, one line each."""
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        call()
        figs = plt.get_fignums()
        ctx.require(len(figs) == 1, "%d figures were created" % len(figs))
        fig = plt.figure(figs[0])
        out = []
        for ax in fig.axes:
            ctx.require(len(ax.lines) == 1, "an axis shows %d curves" % len(ax.lines))
            ln = ax.lines[0]
            out.append((np.asarray(ln.get_xdata(orig=True), float), np.asarray(ln.get_ydata(orig=True), float), ax.get_position().y0))
        return out
    finally:
        plt.close("all")


def in_order(ctx, axes, what):
    ys = [a[2] for a in axes]
    ctx.require(all(a > b for a, b in zip(ys, ys[1:])), lambda: what + ": the axes are not stacked in order")


def shows(ctx, axes, t, rows, what, tol=0.0):
    ctx.require(len(axes) == len(rows), lambda: "%s: %d axes for %d curves" % (what, len(axes), len(rows)))
    in_order(ctx, axes, what)
    for i, ((x, y, _), r) in enumerate(zip(axes, rows)):
        ctx.require(x.shape == np.shape(t) and np.array_equal(x, np.asarray(t, float)), lambda: "%s: axis %d is drawn against %s" % (what, i, x[:5]))
        ok = y.shape == np.shape(r) and (np.max(np.abs(y - r)) <= tol if tol else np.array_equal(y, r))
        ctx.require(ok, lambda: "%s: axis %d does not show its component (largest difference %s)" % (what, i, np.max(np.abs(y - r)) if y.shape == np.shape(r) else "shape"))


def comps(rows, n, seed=1):
    return np.array([G.lcg(n, seed + i) * (i + 1) for i in range(rows)]).reshape(rows, n)


TS = {"none": lambda n: None, "float": lambda n: np.linspace(-1, 4, n), "int": lambda n: np.arange(n) * 3 + 2, "list": lambda n: [0.5 * i for i in range(n)], "uneven": G.SHORT_T["uneven"],
      "cyclic": lambda n: np.abs(np.arange(n) - (n - 1) / 2), "reversed": lambda n: np.arange(n)[::-1] * 0.5, "zeros": lambda n: np.zeros(n), "tuple": lambda n: tuple(range(5, 5 + n))}


def plot_cases(rows, ns, flags=(True, False)):
    for r, n, t, inc, src in itertools.product(rows, ns, TS, flags, ("args", "attached", "both", "args-imfs", "own-residue", "own-imfs")):
        if src == "args-imfs" and inc not in (0, "numpy-false"):
            continue  # a residue is requested but none is there: an error, covered below
        if r == 0 and not inc:
            continue
        yield {"rows": r, "n": n, "t": t, "residue": inc, "source": src}


def flat_cases():
    for c in plot_cases((1, 2, 4), (8,)):
        if c["t"] in ("none", "float"):
            for flat in ("residue", "last", "all", "same"):
                yield dict(c, flat=flat)


class Attached:
    def __init__(self, imfs, res):
        self.v = imfs, res

    def get_imfs_and_residue(self):
        return self.v


def plots(case, ctx):
    from PyEMD.visualisation import Visualisation

    r, n = case["rows"], case["n"]
    case = dict(case, residue={"numpy-true": np.True_, "numpy-false": np.False_}.get(case["residue"], case["residue"]))
    imfs, res = comps(r, n), G.lcg(n, 77) + 5
    if case.get("flat") == "residue":
        res = res * 0
    elif case.get("flat") == "last":
        imfs[-1] = 0
    elif case.get("flat") == "all":
        imfs, res = imfs * 0, res * 0
    elif case.get("flat") == "same":
        imfs[:] = res
    other, ores = comps(r + 1, n, 40), G.lcg(n, 78) - 5
    t = TS[case["t"]](n)
    keep = imfs.copy(), res.copy(), None if t is None else np.array(t)
    if case["source"] == "attached":
        call = lambda: Visualisation(Attached(imfs, res)).plot_imfs(t=t, include_residue=case["residue"])
    elif case["source"] == "both":
        call = lambda: Visualisation(Attached(other, ores)).plot_imfs(imfs=imfs, residue=res, t=t, include_residue=case["residue"])
    elif case["source"] == "args":
        call = lambda: Visualisation().plot_imfs(imfs, res, t, case["residue"])
    elif case["source"] == "own-residue":  # components of the attached decomposer, residue passed
        call = lambda: Visualisation(Attached(imfs, ores)).plot_imfs(residue=res, t=t, include_residue=case["residue"])
    elif case["source"] == "own-imfs":  # components passed, residue of the attached decomposer
        call = lambda: Visualisation(Attached(other, res)).plot_imfs(imfs=imfs, t=t, include_residue=case["residue"])
    else:
        call = lambda: Visualisation().plot_imfs(imfs=imfs, t=t, include_residue=False)
    axes = figure(ctx, call)
    ctx.step()
    rows = list(imfs) + ([res] if case["residue"] else [])
    shows(ctx, axes, range(n) if t is None else t, rows, "plot_imfs %s" % case)
    ctx.require(np.array_equal(imfs, keep[0]) and np.array_equal(res, keep[1]) and (t is None or np.array_equal(t, keep[2])), lambda: "plot_imfs %s: inputs modified" % case)
    ctx.validate()
    ctx.state(sorted(map(str, case.items())))


def emd_cases(ns):
    for n, f, cls, inc in itertools.product(ns, ("noise", "two_tones", "ramp", "walk"), ("EMD", "EEMD", "CEEMDAN"), (True, False)):
        yield {"family": f, "n": n, "class": cls, "residue": inc}


def attached(case, ctx):
    """A real decomposer attached: exactly its components are drawn."""
    import PyEMD
    from PyEMD.visualisation import Visualisation

    kw = {} if case["class"] == "EMD" else {"trials": 2, "parallel": False}
    e = getattr(PyEMD, case["class"])(MAX_ITERATION=20, **kw)
    try:
        Visualisation(e)
        ctx.fail("%s: a decomposer that has not run was accepted" % case)
    except ValueError:
        pass
    e(G.make(case["family"], case["n"]))
    imfs, res = e.get_imfs_and_residue()
    if not len(imfs) and not case["residue"]:
        return
    axes = figure(ctx, lambda: Visualisation(e).plot_imfs(include_residue=case["residue"]))
    ctx.step()
    shows(ctx, axes, range(case["n"]), list(imfs) + ([res] if case["residue"] else []), "plot_imfs %s" % case)
    if len(imfs) and case["residue"] and np.all(np.max(np.abs(imfs), axis=1) > 0):
        t = np.arange(case["n"]) * 0.1
        axes = figure(ctx, lambda: Visualisation(e).plot_instant_freq(t))
        ctx.step()
        ctx.require(len(axes) == len(imfs), lambda: "plot_instant_freq %s: %d axes for %d components" % (case, len(axes), len(imfs)))
        freq_check(ctx, axes, np.asarray(imfs), t, False, None, str(case))
    ctx.validate()
    ctx.state(sorted(case.items()), len(axes))


# ---- instantaneous frequency -----------------------------------------------------------------------------------

def analytic(x):
    n = len(x)
    F = np.fft.fft(x)
    h = np.zeros(n)
    h[0] = 1
    h[1 : (n + 1) // 2] = 2
    if n % 2 == 0:
        h[n // 2] = 1
    return np.fft.ifft(F * h)


def unwrap(p):
    """Sequential unwrapping; also returns how close any jump comes to the ambiguous half turn."""
    out, margin = [p[0]], np.inf
    for a, b in zip(p, p[1:]):
        d = (b - a + np.pi) % (2 * np.pi) - np.pi
        margin = min(margin, np.pi - abs(d))
        out.append(out[-1] + d)
    return np.array(out), margin


def reference(row, dt, order, alpha):
    from PyEMD.compact import filt6, pade6

    z = analytic(row)
    if alpha is not None:
        z = filt6(z.real.copy(), alpha) + 1j * filt6(z.imag.copy(), alpha)
    safe = np.min(np.abs(z)) > 1e-6 * np.max(np.abs(z))
    ph, margin = unwrap(np.angle(z))
    if alpha is not None:
        ph = filt6(ph, alpha)
    if order:
        f = pade6(ph, dt) / (2 * np.pi)
    else:
        f = np.diff(ph) / (2 * np.pi * dt)
        f = np.append(f, f[-1])
    if alpha is not None:
        f = filt6(f, alpha)
    return f, safe and margin > 1e-6


def freq_check(ctx, axes, imfs, t, order, alpha, what):
    dt = float(t[1] - t[0])
    ctx.require(len(axes) == len(imfs), lambda: "%s: %d axes for %d components" % (what, len(axes), len(imfs)))
    in_order(ctx, axes, what)
    for i, (x, y, _) in enumerate(axes):
        ctx.require(np.array_equal(x, np.asarray(t, float)), lambda: "%s: axis %d is not drawn against the time array" % (what, i))
        ctx.require(y.shape == x.shape and np.all(np.isfinite(y)), lambda: "%s: axis %d has shape %s" % (what, i, y.shape))
        f, ok = reference(imfs[i], dt, order, alpha)
        if not ok:
            ctx.skip()
            continue
        ctx.require(np.max(np.abs(y - f)) <= 1e-6 * (1 / dt), lambda: "%s: the frequency of component %d is off by %g" % (what, i, np.max(np.abs(y - f))))
        ctx.validate()


FREQ = ("tone", "two_tones", "chirp", "am", "noise", "walk", "saw", "edge_burst", "offset_tone")


ORDERS = {"1": 1, "0": 0, "numpy-true": np.True_, "numpy-false": np.False_}


def freq_cases(ns, alphas, rows=(1, 2, 3), orders=(False, True)):
    for n, order, alpha, rows, src in itertools.product(ns, orders, alphas, rows, ("args", "both")):
        yield {"n": n, "order": order, "alpha": alpha, "rows": rows, "source": src}


def freqs(case, ctx):
    from PyEMD.visualisation import Visualisation

    n, r = case["n"], case["rows"]
    order = ORDERS.get(case["order"], case["order"])
    for first in range(0, len(FREQ), r):
        imfs = np.array([G.make(FREQ[(first + i) % len(FREQ)], n) for i in range(r)])
        for t in (np.arange(n) * 0.01 + 2.0,) if first else (np.arange(n) * 0.01 + 2.0, np.arange(n), np.linspace(0, 1, n)):
            keep = imfs.copy(), t.copy()
            vis = Visualisation(Attached(comps(r + 1, n, 9), G.lcg(n, 3))) if case["source"] == "both" else Visualisation()
            axes = figure(ctx, lambda: vis.plot_instant_freq(t, imfs=imfs, order=order, alpha=case["alpha"]))
            ctx.step()
            freq_check(ctx, axes, imfs, t, bool(order), case["alpha"], "plot_instant_freq %s" % case)
            ctx.require(np.array_equal(imfs, keep[0]) and np.array_equal(t, keep[1]), lambda: "plot_instant_freq %s: inputs modified" % case)
    ctx.state(sorted(map(str, case.items())))


def tone_cases(ns, cycles):
    for n, c, order in itertools.product(ns, cycles, (False, True)):
        if 2 * c < n:
            yield {"n": n, "cycles": c, "order": order}


def tones(case, ctx):
    """A pure tone shows its frequency."""
    from PyEMD.visualisation import Visualisation

    n, c = case["n"], case["cycles"]
    for dt, ph in ((1.0 / n, 0.3), (0.25, 1.0), (1.0, 2.0)):
        t = np.arange(n) * dt
        f = c / (n * dt)
        axes = figure(ctx, lambda: Visualisation().plot_instant_freq(t, np.array([2.5 * np.cos(2 * np.pi * f * t + ph)]), case["order"]))
        ctx.step()
        ctx.require(len(axes) == 1 and np.max(np.abs(axes[0][1] - f)) <= 1e-6 / dt, lambda: "%s dt=%g: a tone of %g Hz is shown as %s" % (case, dt, f, axes[0][1][:4]))
    ctx.validate()
    ctx.state(sorted(case.items()))


HOPS = ("plot", "plot-bare", "plot-args", "plot-imfs", "plot-residue", "freq", "freq-args", "freq-filtered", "bad")


def history_cases(depth):
    """Every sequence of plotting calls on one object, with and without an attached decomposition."""
    for d in range(2, depth + 1):
        for seq in itertools.product(HOPS, repeat=d):
            for has in (True, False):
                yield {"ops": list(seq), "attached": has}


def history(case, ctx):
    from PyEMD.visualisation import Visualisation
    import matplotlib.pyplot as plt

    n = 24
    mine = np.array([G.make("two_tones", n), G.make("walk", n)]), G.lcg(n, 5)
    vis = Visualisation(Attached(*mine)) if case["attached"] else Visualisation()
    for k, op in enumerate(case["ops"]):
        what = "%s, call %d" % (case, k)
        given = np.array([G.make(name, n) * (k + 1) for name in ("chirp", "tone", "am")[: 1 + k]]), G.lcg(n, 50 + k)
        t = np.arange(n) * 0.5 + k
        imfs = given[0] if op in ("plot-args", "plot-imfs", "freq-args", "freq-filtered") else mine[0] if case["attached"] else None
        residue = given[1] if op in ("plot-args", "plot-residue") else mine[1] if case["attached"] else None
        call = {"plot": lambda: vis.plot_imfs(t=t),
                "plot-bare": lambda: vis.plot_imfs(include_residue=False),
                "plot-args": lambda: vis.plot_imfs(given[0], given[1], t=t),
                "plot-imfs": lambda: vis.plot_imfs(imfs=given[0], t=t),
                "plot-residue": lambda: vis.plot_imfs(residue=given[1], t=t),
                "freq": lambda: vis.plot_instant_freq(t),
                "freq-args": lambda: vis.plot_instant_freq(t, given[0], order=True),
                "freq-filtered": lambda: vis.plot_instant_freq(t, imfs=given[0], alpha=0.2),
                "bad": lambda: vis.plot_instant_freq(t, imfs=given[0], alpha=0.6)}[op]
        ctx.step()
        if op == "bad" or imfs is None or (residue is None and op.startswith("plot") and op != "plot-bare"):
            try:
                call()
            except (AssertionError if op == "bad" else AttributeError):
                continue
            finally:
                plt.close("all")
            ctx.fail("%s: %s accepted" % (what, op))
        axes = figure(ctx, call)
        if op.startswith("plot"):
            shows(ctx, axes, range(n) if op == "plot-bare" else t, list(imfs) + ([] if op == "plot-bare" else [residue]), what)
        else:
            freq_check(ctx, axes, imfs, t, op == "freq-args", 0.2 if op == "freq-filtered" else None, what)
    ctx.validate()
    ctx.state(str(case))


def error_cases():
    for a in (-0.5, 0.5, 0.7, -2.0, 1, 0.50001):
        yield {"what": "alpha", "alpha": a}
    for w in ("no-imfs", "no-residue", "no-imfs-freq", "residue-only"):
        yield {"what": w}


def errors(case, ctx):
    from PyEMD.visualisation import Visualisation

    n = 20
    imfs, t = comps(2, n), np.arange(n) * 0.1
    ctx.step()
    ctx.state(str(case))
    import matplotlib.pyplot as plt

    try:
        if case["what"] == "alpha":
            Visualisation().plot_instant_freq(t, imfs=imfs, alpha=case["alpha"])
        elif case["what"] == "no-imfs":
            Visualisation().plot_imfs()
        elif case["what"] == "residue-only":
            Visualisation().plot_imfs(residue=imfs[0])
        elif case["what"] == "no-residue":
            Visualisation().plot_imfs(imfs=imfs)
        else:
            Visualisation().plot_instant_freq(t)
    except (AssertionError if case["what"] == "alpha" else AttributeError):
        return
    finally:
        plt.close("all")
    ctx.fail("%s accepted" % case)


class C15(core.Check):
    id = "C15"
    preload = ("PyEMD", "PyEMD.visualisation", "matplotlib.pyplot")
    technique = "exhaustive enumeration of component counts x time axes x data sources x residue flags x filter and difference settings; drawn curves are read back from the figure and compared with an independent phase derivative"
    level_note = "0-6 (9 thorough) components, 9 kinds of time axis, 6 data sources; 9 signal shapes x 2 difference schemes x 6 (10) filter settings; all tones with whole cycles for several lengths. Samples with a phase jump within 1e-6 of half a turn or vanishing amplitude are not judged."
    assumptions = ["uniform time steps for the frequency plot", "filter and compact derivative are the implementation's own (decided by C14)"]

    def spaces(self, tier):
        q = tier == "quick"
        return [
            core.Space("errors", error_cases, errors, "missing data, filter intensities out of range"),
            core.Space("plot-imfs", lambda: plot_cases((0, 1, 2, 3, 6) if q else range(10), (7, 30)), plots, "component counts x axes x sources x residue flag"),
            core.Space("plot-imfs-many", lambda: (c for c in plot_cases((11, 17), (9,)) if c["t"] in ("none", "float") and c["source"] in ("args", "both")), plots, "many components", timeout=120),
            core.Space("plot-imfs-flags", lambda: (c for c in plot_cases((1, 3), (9,), (1, 0, "numpy-true", "numpy-false")) if c["t"] == "none"), plots, "other truth values of the residue flag"),
            core.Space("plot-imfs-long", lambda: (c for c in plot_cases((2,), (300, 5000)) if c["t"] in ("none", "uneven")), plots, "long components", timeout=120),
            core.Space("attached", lambda: emd_cases((12, 25) if q else (12, 40)), attached, "real decomposers attached"),
            core.Space("frequency", lambda: freq_cases((21, 40) if q else (21, 40, 64), (None, -0.4, 0.0, 0.2, 0.45) if q else (None, -0.49, -0.4, -0.2, 0.0, 0.1, 0.2, 0.3, 0.45, 0.49)), freqs, "signal shapes x schemes x filters x component counts"),
            core.Space("frequency-many", lambda: freq_cases((30,), (None, 0.3), (5, 9, 13, 20)), freqs, "many components", timeout=120),
            core.Space("frequency-flags", lambda: freq_cases((21,), (None, 0.2), (1, 2), tuple(ORDERS)), freqs, "other truth values of the scheme flag"),
            core.Space("plot-imfs-flat", flat_cases, plots, "zero residue, zero component, all zero, residue equal to the components"),
            core.Space("histories", lambda: history_cases(2 if q else 3), history, "every sequence of 9 plotting calls on one object"),
            core.Space("tones", lambda: tone_cases((16, 25) if q else (16, 25, 40, 64), range(1, 12) if q else range(1, 32)), tones, "every whole number of cycles"),
        ]


CHECK = C15()
