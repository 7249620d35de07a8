"""C14: compact differentiation and filtering; decided on complete bases of their (linear) input spaces."""
import itertools

import numpy as np

from mc import core, signals as G


def unchanged(ctx, arrs, keep, what):
    ctx.require(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), lambda: what + ": arguments modified")


def tdma_cases(n, offs, slack, d_letters):
    for a in itertools.product(offs, repeat=n - 1):
        for c in itertools.product(offs, repeat=n - 1):
            for s in itertools.product(slack, repeat=n):
                yield {"a": list(a), "c": list(c), "slack": list(s), "d": d_letters}


def tdma(case, ctx):
    from PyEMD.compact import TDMAsolver

    n = len(case["slack"])
    for junk in (0.0, 7.0):
        a, c = np.array([junk] + case["a"], float), np.array(case["c"] + [junk], float)
        off = np.abs(np.array([0.0] + case["a"])) + np.abs(np.array(case["c"] + [0.0]))
        b = np.array([(abs(s) + o) * np.sign(s) for s, o in zip(case["slack"], off)])
        A = np.diag(b) + np.diag(a[1:], -1) + np.diag(c[:-1], 1)
        for j in range(n + 1):
            d = np.eye(n)[j] if j < n else 1.5 - np.arange(n)
            args = [a.copy(), b.copy(), c.copy(), d.copy()]
            keep = [v.copy() for v in args]
            x = TDMAsolver(*args)
            ctx.step()
            unchanged(ctx, args, keep, "TDMAsolver %s" % case)
            ctx.require(np.shape(x) == (n,) and np.max(np.abs(A @ x - d)) <= 1e-10 * (1 + np.max(np.abs(x))), lambda: "TDMAsolver %s rhs %s: %s does not solve the system" % (case, d.tolist(), np.asarray(x).tolist()))
    ctx.validate()
    ctx.state(str(case))


def graded_cases(exps):
    for ea, eb, ec, ed in itertools.product(exps, repeat=4):
        yield {"a": ea, "b": eb, "c": ec, "d": ed}


def graded(case, ctx):
    """Coefficients and right-hand sides of very different sizes, up to the rounding of the largest."""
    from PyEMD.compact import TDMAsolver

    for n, flip in itertools.product((2, 5, 9), (False, True)):
        k = np.arange(n)
        a = 10.0 ** np.where((k % 2 == 0) != flip, case["a"], 0) * np.where(k % 3, 1, -0.5)
        c = 10.0 ** np.where((k % 2 == 0) == flip, case["c"], 0) * np.where(k % 3 == 1, 1, -0.7)
        b = (np.abs(a) + np.abs(c)) * 1.3 * np.where(k % 2, 1, -1) * 10.0 ** max(0, case["b"])
        d = (1.0 + k) * 10.0 ** np.where(k == n - 1, case["d"], 0)
        x = np.asarray(TDMAsolver(a.copy(), b.copy(), c.copy(), d.copy()))
        ctx.step()
        l, u = np.append(0.0, a[1:] * x[:-1]), np.append(c[:-1] * x[1:], 0.0)
        left = np.abs(l + b * x + u - d)
        size = max(np.max(np.abs(v)) for v in (a, b, c)) * np.max(np.abs(x)) + np.max(np.abs(d))
        ctx.require(np.max(left) <= 1e-13 * size, lambda: "TDMAsolver %s n=%d: row residuals %s" % (case, n, left.tolist()))
    ctx.validate()
    ctx.state(str(case))


def tdma_long(case, ctx):
    from PyEMD.compact import TDMAsolver

    n = case["n"]
    for seed in range(4):
        a, c, d = G.lcg(n, seed + 1), G.lcg(n, seed + 11), 10 * G.lcg(n, seed + 21)
        b = (np.abs(a) + np.abs(c) + 0.1) * np.where(G.lcg(n, seed + 31) > 0, 1, -1)
        x = TDMAsolver(a, b, c, d)
        A = np.diag(b) + np.diag(a[1:], -1) + np.diag(c[:-1], 1)
        ctx.step()
        ctx.require(np.max(np.abs(A @ x - d)) <= 1e-9 * (1 + np.max(np.abs(x))), lambda: "TDMAsolver n=%d seed %d" % (n, seed))
    ctx.validate()
    ctx.state("long", n)


def operator(ctx, f, n, what):
    """Matrix of a linear map from its values on the unit vectors; linearity is then checked on other vectors."""
    cols = []
    for j in range(n):
        u = np.eye(n)[j]
        k = u.copy()
        v = np.asarray(f(u), float)
        ctx.step()
        ctx.require(v.shape == (n,) and np.all(np.isfinite(v)), lambda: "%s: result %s" % (what, v))
        unchanged(ctx, [u], [k], what)
        cols.append(v)
    M = np.array(cols).T
    size = np.max(np.abs(M))
    for v in (np.ones(n), np.arange(n, dtype=float) - 3, G.lcg(n, 3), 1e4 * G.lcg(n, 5) + 7, np.where(np.arange(n) % 2, 1.0, -1.0)):
        got = f(v)
        ctx.step()
        ctx.require(np.max(np.abs(got - M @ v)) <= 1e-9 * size * n * np.max(np.abs(v)), lambda: what + ": not linear")
    iv = np.round(20 * G.lcg(n, 8)).astype(int)
    ctx.require(np.max(np.abs(f(iv) - f(iv.astype(float)))) <= 1e-9 * size * 20 * n, lambda: what + ": an integer vector gives another result")
    ro = G.lcg(2 * n, 4)[::2]
    ro.setflags(write=False)
    ctx.require(np.max(np.abs(f(ro) - f(ro.copy()))) <= 1e-9 * size * n, lambda: what + ": memory layout changes the result")
    return M


def pade_cases(ns):
    for n, h in ((n, h) for n in ns for h in ((1.0, 0.01, 2.5, 1e3) if n > 40 else (1.0, 0.01, 2.5, 1e3, 1e-6, 1e-12, 1e9))):
        yield {"n": n, "h": h}


def pade(case, ctx):
    from PyEMD.compact import pade6

    n, h = case["n"], case["h"]
    what = "pade6 n=%d h=%g" % (n, h)
    M = operator(ctx, lambda v: pade6(v, h), n, what)
    size = np.max(np.abs(M))
    ctx.require(np.max(np.abs(M + M[::-1, ::-1])) <= 1e-9 * size, lambda: what + ": reversing the vector does not negate and reverse the derivative")
    if h != 1.0:
        M1 = operator(ctx, lambda v: pade6(v, 1.0), n, what)
        ctx.require(np.max(np.abs(M * h - M1)) <= 1e-9 * np.max(np.abs(M1)), lambda: what + ": not inversely proportional to the spacing")
    for off in (0, n // 2, n - 1):
        x = (np.arange(n) - off) * h
        for deg in range(7):
            p = x**deg
            want = deg * x ** (deg - 1) if deg else np.zeros(n)
            got = pade6(p, h)
            ctx.step()
            tol = 1e-10 * size * max(1e-300, np.max(np.abs(p)))
            ctx.require(np.max(np.abs(got - want)) <= tol, lambda: "%s: derivative of degree %d wrong by %g" % (what, deg, np.max(np.abs(got - want))))
    ctx.validate()
    ctx.state(n, h)


def filt_cases(ns, alphas):
    for n, a in itertools.product(ns, alphas):
        yield {"n": n, "alpha": a}


def filt(case, ctx):
    from PyEMD.compact import filt6

    n, al = case["n"], case["alpha"]
    what = "filt6 n=%d alpha=%g" % (n, al)
    M = operator(ctx, lambda v: filt6(v, al), n, what)
    ctx.require(np.max(np.abs(M - M[::-1, ::-1])) <= 1e-10, lambda: what + ": reversing the vector does not reverse the result")
    for off in (0, n // 2):
        x = (np.arange(n) - off) / 4.0
        for deg in range(4):
            p = x**deg
            got = filt6(p, al)
            ctx.step()
            ctx.require(np.max(np.abs(got - p)) <= 1e-10 * max(1, np.max(np.abs(p))), lambda: "%s: changes a polynomial of degree %d by %g" % (what, deg, np.max(np.abs(got - p))))
    hf = np.where(np.arange(n) % 2, 1.0, -1.0)
    ctx.require(np.max(np.abs(filt6(hf, al))) <= 1e-10, lambda: what + ": does not remove the highest frequency")
    if al == 0.5:
        # nothing is removed from anything supported away from the ends
        for j in range(6, n - 6):
            ctx.require(np.max(np.abs(M[:, j] - np.eye(n)[j])) <= 1e-10, lambda: "%s: changes an impulse at %d" % (what, j))
    ctx.validate()
    ctx.state(n, al)


def response_cases(alphas):
    for a in alphas:
        yield {"alpha": a}


def response(case, ctx):
    """Interior frequency response: real, 1 at zero frequency, non-increasing to 0, flat to sixth order."""
    from PyEMD.compact import filt6

    al, n = case["alpha"], 257 if abs(case["alpha"]) < 0.45 else 1025
    u = np.zeros(n)
    u[n // 2] = 1.0
    r = np.asarray(filt6(u, al))
    ctx.step()
    k = np.arange(n) - n // 2
    w = np.linspace(0, np.pi, 60)
    H = np.array([np.sum(r * np.cos(k * x)) for x in w])
    odd = np.array([np.sum(r * np.sin(k * x)) for x in w])
    ctx.require(np.max(np.abs(odd)) <= 1e-8, lambda: "filt6 alpha=%g shifts phases" % al)
    ctx.require(abs(H[0] - 1) <= 1e-8 and abs(H[-1]) <= 1e-8, lambda: "filt6 alpha=%g: response %g at zero and %g at the highest frequency" % (al, H[0], H[-1]))
    ctx.require(np.max(np.diff(H)) <= 1e-8 and H.min() >= -1e-8 and H.max() <= 1 + 1e-8, lambda: "filt6 alpha=%g: response not monotone between 1 and 0" % al)
    lo = np.array([0.1, 0.2])
    D = np.array([1 - np.sum(r * np.cos(k * x)) for x in lo])
    ctx.require(np.all(D <= 1e-9 + lo**6), lambda: "filt6 alpha=%g: not flat at low frequencies: %s" % (al, D.tolist()))
    if al <= 0.3:
        ctx.require(H[-12] < 0.5, lambda: "filt6 alpha=%g: high frequencies are not damped" % al)
    ctx.validate()
    ctx.state(al)


class C14(core.Check):
    id = "C14"
    preload = ("PyEMD", "PyEMD.compact")
    technique = "exhaustive enumeration of complete bases: both operators are linear, so every vector of a length is decided by its unit vectors; tridiagonal systems enumerated over small coefficient alphabets"
    level_note = "All lengths 7..90 (..160 thorough) x spacings x filter intensities, operator matrices extracted on the full unit basis; all diagonally dominant tridiagonal systems of size 1..4 over a coefficient alphabet."
    assumptions = ["vectors of at least seven samples", "filter intensities in (-0.5, 0.5]"]

    def spaces(self, tier):
        q = tier == "quick"
        ns = range(7, 91) if q else range(7, 161)
        al = (-0.4999, -0.495, -0.49, -0.4, -0.25, -0.1, 0.0, 0.1, 0.2, 0.3, 0.4, 0.45, 0.49, 0.4999, 0.5)
        return [
            core.Space("tdma", lambda: itertools.chain(tdma_cases(1, (0,), (1, -2), 0), tdma_cases(2, (0, 1, -2), (0.5, -2), 0), tdma_cases(3, (0, 1, -2), (0.5, -2), 0), tdma_cases(4, (0, 1, -2), (0.5, -2), 0)), tdma, "every system over the alphabet", block=4),
            core.Space("tdma-graded", lambda: graded_cases((0, -4, -7, -10, 3, 8) if q else (0, -2, -4, -7, -10, -14, 2, 3, 5, 8, 12)), graded, "coefficients of very different sizes"),
            core.Space("tdma-long", lambda: ({"n": n} for n in (ns if q else range(5, 200))), tdma_long, "longer systems"),
            core.Space("pade6", lambda: pade_cases(ns), pade, "every length x spacing"),
            core.Space("filt6", lambda: filt_cases(ns, al), filt, "every length x intensity"),
            core.Space("pade6-long", lambda: pade_cases((97, 100, 128, 129, 200, 255, 256, 257, 512) if q else (192, 200, 255, 256, 257, 300, 400, 512, 513, 700, 1000, 1024)), pade, "longer vectors", timeout=300),
            core.Space("filt6-long", lambda: filt_cases((97, 100, 128, 129, 200, 255, 256, 257, 512) if q else (192, 200, 255, 256, 257, 300, 400, 512, 513, 700, 1000, 1024), (-0.4, 0.1, 0.35, 0.5)), filt, "longer vectors", timeout=300),
            core.Space("filt6-response", lambda: response_cases(tuple(np.round(np.arange(-0.47, 0.48, 0.01), 2)) if q else tuple(np.round(np.arange(-0.47, 0.48, 0.001), 3))), response, "interior frequency response"),
        ]


CHECK = C14()
