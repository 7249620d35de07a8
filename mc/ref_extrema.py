"""Reference model of extrema and zero-crossings: plain loops over runs of equal samples."""


def runs(s):
    out = []
    for i, v in enumerate(s):
        if out and out[-1][2] == v:
            out[-1][1] = i
        else:
            out.append([i, i, v])
    return out


def mid(a, b):
    return int(round((a + b) / 2.0))  # Python rounds half to even, like numpy


def turns(s):
    """[(first, last, +1 | -1)] for every stretch of equal samples where the signal turns."""
    r = runs(s)
    out = []
    for p, c, n in zip(r, r[1:], r[2:]):
        if p[2] < c[2] > n[2]:
            out.append((c[0], c[1], 1))
        elif p[2] > c[2] < n[2]:
            out.append((c[0], c[1], -1))
    return out


def simple(t, s):
    tr = turns(s)
    mx = [mid(a, b) for a, b, k in tr if k > 0]
    mn = [mid(a, b) for a, b, k in tr if k < 0]
    return [t[i] for i in mx], [s[i] for i in mx], [t[i] for i in mn], [s[i] for i in mn]


def parabola_vertex(t0, s0, tp, sp, tn, sn):
    """Vertex of the parabola through three points, in coordinates centred at the middle one."""
    hp, hn = tp - t0, tn - t0
    up, un = (sp - s0) / hp, (sn - s0) / hn
    a = (up - un) / (hp - hn)
    b = up - a * hp
    return t0 - b / (2 * a), s0 - b * b / (4 * a)


def parabol(t, s):
    mx, mn = [], []
    for a, b, k in turns(s):
        prev = a if b > a else a - 1  # a flat turn is spanned on its two ends and the following sample
        v = parabola_vertex(t[b], s[b], t[prev], s[prev], t[b + 1], s[b + 1])
        (mx if k > 0 else mn).append(v)
    return [v[0] for v in mx], [v[1] for v in mx], [v[0] for v in mn], [v[1] for v in mn]


def zeros(s):
    out = []
    for i in range(len(s) - 1):
        if (s[i] > 0 and s[i + 1] < 0) or (s[i] < 0 and s[i + 1] > 0):
            out.append(i)
    for a, b, v in runs(s):
        if v == 0:
            out.append(mid(a, b))
    return sorted(out)
