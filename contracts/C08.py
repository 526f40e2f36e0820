"""Cubic splines: the tridiagonal system, the pieces, the evaluation."""
import numpy as np

from pyvc.registry import Prop

P = Prop("C08", [
    "pieces are proved for any solution of the tridiagonal system, of any "
    "size; the solver itself is proved for two to six knots and bounded "
    "beyond",
    "pivots of the elimination are assumed non zero (the system is "
    "diagonally dominant for increasing knots)"])
M = "africanus.averaging.splines:"


def knots(v, n):
    """increasing knots"""
    if v.symbolic:
        x = v.array("x", (n,), float)
        for i in range(n - 1):
            v.assume(v.rd(x, i + 1) - v.rd(x, i) > 0)
        return x
    return np.cumsum(v.array("h", (n,), float, lo=0.25, hi=2.0)) - 2.0


def system(v, x, y, n, z, lt, rt, lv, rv):
    """the equations of the second derivatives 2 z"""
    def hh(i):
        return v.rd(x, i + 1) - v.rd(x, i)

    def sl(i):
        return (v.rd(y, i + 1) - v.rd(y, i)) / hh(i)

    def zz(i):
        return v.rd(z, i)
    out = []
    for i in range(1, n - 1):
        out.append(("inner", hh(i - 1) * zz(i - 1) / 3 +
                    (hh(i - 1) + hh(i)) * zz(i) * 2 / 3 +
                    hh(i) * zz(i + 1) / 3, sl(i) - sl(i - 1)))
    if lt == 2:
        out.append(("left curvature", 2 * zz(0), lv))
    else:
        out.append(("left slope", sl(0) - hh(0) * (2 * zz(0) + zz(1)) / 3,
                    lv))
    if rt == 2:
        out.append(("right curvature", 2 * zz(n - 1), rv))
    else:
        out.append(("right slope", sl(n - 2) + hh(n - 2) * (
            2 * zz(n - 1) + zz(n - 2)) / 3, rv))
    return out


@P.contract(params=[dict(n=n, lt=l, rt=r) for n in (2, 3, 4, 5, 6)
                    for l in (1, 2) for r in (1, 2)], cases=20)
def solver(v, n, lt, rt):
    """the solution has continuous slopes at inner knots and the requested
    slope or curvature at the ends"""
    f = v.fn(M + "solve_trid_system")
    x = knots(v, n)
    y = v.array("y", (n,), float, lo=-2.0, hi=2.0)
    lv, rv = v.real("lv", -2, 2), v.real("rv", -2, 2)
    z = f(x, y, lt, rt, lv, rv)
    v.shape_is("z", z, (n,))
    for nm, got, want in system(v, x, y, n, z, lt, rt, lv, rv):
        v.eq(nm, got, want)


@P.contract(params=[dict(n=n, lt=l, rt=r) for n in (7, 12)
                    for l in (1, 2) for r in (1, 2)],
            symbolic=False, cases=20)
def solver_larger(v, n, lt, rt):
    """the same for more knots"""
    f = v.fn(M + "solve_trid_system")
    x = knots(v, n)
    y = v.array("y", (n,), float, lo=-2.0, hi=2.0)
    lv, rv = v.real("lv", -2, 2), v.real("rv", -2, 2)
    z = f(x, y, lt, rt, lv, rv)
    for nm, got, want in system(v, x, y, n, z, lt, rt, lv, rv):
        v.eq(nm, got, want)


@P.contract(symbolic=False, cases=10)
def refused(v):
    """end conditions and orders that do not exist are refused"""
    f, g = v.fn(M + "fit_cubic_spline"), v.fn(M + "evaluate_spline")
    x = knots(v, 4)
    y = v.array("y", (4,), float, lo=-2.0, hi=2.0)
    v.raises("left", ValueError, lambda: f(x, y, 0, 2))
    v.raises("right", ValueError, lambda: f(x, y, 2, 3))
    v.raises("right", ValueError, lambda: f(x, y, 1, 0))
    v.raises("order", ValueError, lambda: g(f(x, y), x, 3))


@P.contract(cases=40)
def pieces(v):
    """every piece joins the values and the curvatures of its two knots; the
    last one continues with the slope of the one before"""
    f = v.fn(M + "fit_cubic_spline")
    n = v.dim("n", 2)
    if v.symbolic:
        x = v.array("x", (n,), float)
        b = v.array("b", (n,), float)
        args = []

        def solver(*a):
            args.append(a)
            return b.copy()
        v.use_contract(M + "solve_trid_system", solver)
    else:
        x, b = knots(v, int(n)), None
    y = v.array("y", (n,), float, lo=-2.0, hi=2.0)
    lv, rv = v.real("lv", -2, 2), v.real("rv", -2, 2)
    sp = f(x, y, 1, 2, lv, rv)
    ma, mb, mc, mx, my = sp
    if v.symbolic:
        v.ensure("system solved once", len(args) == 1)
        for nm, i, want in (("left type", 2, 1), ("right type", 3, 2),
                            ("left value", 4, lv), ("right value", 5, rv)):
            v.eq(nm, args[0][i], want)
        v.all_eq("system knots", args[0][0], (n,), lambda i: v.rd(x, i))
        v.all_eq("system values", args[0][1], (n,), lambda i: v.rd(y, i))
    v.all_eq("knots", mx, (n,), lambda i: v.rd(x, i))
    v.all_eq("values", my, (n,), lambda i: v.rd(y, i))
    i = v.int("i", 0, n - 1)
    h = v.rd(x, i + 1) - v.rd(x, i)
    v.assume(h > 0)
    a, c = v.rd(ma, i), v.rd(mc, i)
    b0, b1 = v.rd(mb, i), v.rd(mb, i + 1)
    v.eq("joins values", ((a * h + b0) * h + c) * h + v.rd(y, i),
         v.rd(y, i + 1))
    v.eq("joins curvatures", 6 * a * h + 2 * b0, 2 * b1)
    k = n - 2
    h = v.rd(x, k + 1) - v.rd(x, k)
    v.assume(h > 0)
    v.eq("last slope", v.rd(mc, n - 1), (3 * v.rd(ma, k) * h +
                                         2 * v.rd(mb, k)) * h + v.rd(mc, k))
    v.eq("last piece", v.rd(ma, n - 1), 0)


def spline_of(v, n):
    """an arbitrary piecewise cubic, not only fitted ones"""
    x = knots(v, n)
    return tuple([v.array(k, (n,), float, lo=-2.0, hi=2.0) for k in "abc"] +
                 [x, v.array("y", (n,), float, lo=-2.0, hi=2.0)])


@P.contract(params=[dict(order=o) for o in (0, 1, 2)], symbolic=False,
            cases=120)
def evaluation(v, order):
    """a point gets the value or derivative of the piece of the last knot not
    above it, and of the quadratic continuation outside the knots, whatever
    other points are asked for"""
    f = v.fn(M + "evaluate_spline")
    n = int(v.int("n", 2, 7))
    sp = spline_of(v, n)
    a, b, c, x, y = sp
    m = int(v.int("m", 1, 6))
    pts = v.array("p", (m,), float, lo=-3.0, hi=8.0).copy()
    for k in range(m):
        w = int(v.int("snap%d" % k, 0, 2 * n))
        if w < n:
            pts[k] = x[w]
    from collections import namedtuple
    got = f(namedtuple("Spline", "ma mb mc mx my")(*sp), pts, order)
    v.shape_is("values", got, (m,))
    for k, p in enumerate(pts):
        j = max([0] + [i for i in range(n) if x[i] <= p])
        h = p - x[j]
        cub = 0.0 if p < x[0] or p > x[n - 1] else a[j]
        want = (((cub * h + b[j]) * h + c[j]) * h + y[j],
                (3 * cub * h + 2 * b[j]) * h + c[j],
                6 * cub * h + 2 * b[j])[order]
        v.eq("value", got[k], want)


@P.contract(params=[dict(lt=l, rt=r) for l in (1, 2) for r in (1, 2)],
            symbolic=False, cases=30)
def reproduction(v, lt, rt):
    """a cubic with matching end conditions is reproduced between the knots
    with its derivatives"""
    f, g = v.fn(M + "fit_cubic_spline"), v.fn(M + "evaluate_spline")
    n = int(v.int("n", 2, 8))
    x = knots(v, n)
    q = np.array([float(v.real("q%d" % k, -1, 1)) for k in range(4)])
    d = [np.poly1d(q)]
    d.append(d[0].deriv())
    d.append(d[1].deriv())
    kw = dict(left_type=lt, right_type=rt, left_value=d[lt](x[0]),
              right_value=d[rt](x[n - 1]))
    if lt == rt == 2 and bool(v.int("natural", 0, 2)):
        q[:2] = 0.0
        d = [np.poly1d(q), np.poly1d(q).deriv(), np.poly1d([0.0])]
        kw = {}
    sp = f(x, d[0](x), **kw)
    u = v.array("u", (5,), float, lo=0.0, hi=1.0)
    p = x[0] + (x[n - 1] - x[0]) * u
    for o in range(3):
        got = g(sp, p, o)
        for k in range(5):
            v.eq("derivative %d" % o, got[k], float(d[o](p[k])))
