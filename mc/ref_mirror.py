"""Reference model of boundary mirroring.  Works on one boundary; the other one is its time reversal."""


def left_knots(t_edge, s_edge, maxs, mins, nb, parabolic):
    """maxs/mins: [(t, v)] sorted away from the boundary at t_edge (distances grow).

    Returns the extra upper and lower knots at this boundary, nearest the boundary last.
    """
    swap = mins[0][0] < maxs[0][0]
    near, other = (mins, maxs) if swap else (maxs, mins)  # kind of the outermost extremum first
    beyond = s_edge < other[0][1] if swap else s_edge > other[0][1]
    axis_inside = near[0][0]
    if beyond and parabolic:
        # the mirror image of the other kind's first extremum must fall outside the signal
        beyond = other[0][0] - near[0][0] > near[0][0] - t_edge
    if beyond:
        axis, mn, mo = axis_inside, near[1 : nb + 1], other[:nb]
        if not parabolic:
            far_n = 2 * axis - mn[-1][0]
            far_o = 2 * axis - mo[-1][0]
            if far_n > t_edge or far_o > t_edge:
                axis, mn, mo = t_edge, near[:nb], other[:nb]
    else:
        axis, mn, mo = t_edge, near[:nb], [(t_edge, s_edge)] + other[: nb - 1]
    mir = lambda lst: [(2 * axis - t, v) for t, v in reversed(lst)]
    ext_near, ext_other = mir(mn), mir(mo)
    return (ext_other, ext_near) if swap else (ext_near, ext_other)


def knots(t, s, mx, mn, nb, parabolic):
    """mx, mn: [(t, v)] in time order.  Returns upper and lower knot lists."""
    lmax, lmin = left_knots(t[0], s[0], mx, mn, nb, parabolic)
    neg = lambda lst: [(-a, b) for a, b in reversed(lst)]
    rmax, rmin = left_knots(-t[-1], s[-1], neg(mx), neg(mn), nb, parabolic)
    return lmax + list(mx) + neg(rmax), lmin + list(mn) + neg(rmin)
