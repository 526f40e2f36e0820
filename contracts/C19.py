"""Gaussian process kernels."""
from pyvc.registry import Prop

P = Prop("C19", ["sqrt and exp are uninterpreted functions with sqrt(x)^2 = "
                 "x, exp > 0, exp monotone at 0"])


def dist2(v, x, xp, d, i, j):
    return v.sum(d, lambda k: (v.rd(x, i, k) - v.rd(xp, j, k)) *
                 (v.rd(x, i, k) - v.rd(xp, j, k)))


def points(v, dims):
    n, m = v.dim("n"), v.dim("np")
    if dims == "1d":
        return n, m, None, v.array("x", (n,)), v.array("xp", (m,))
    d = v.dim("d", 1) if dims == "nd" else dims
    return n, m, d, v.array("x", (n, d)), v.array("xp", (m, d))


def between(v, d, x, xp, i, j):
    if d is None:
        return v.abs(v.rd(x, i) - v.rd(xp, j))
    return v.sqrt(dist2(v, x, xp, d, i, j))


@P.contract(params=[dict(dims=d) for d in (1, 2, 3, "nd")])
def abs_diff(v, dims):
    """Euclidean distance between every pair of points"""
    f = v.fn("africanus.gps.utils:abs_diff")
    n, m, d, x, xp = points(v, dims)
    v.all_eq("X", f(x, xp), (n, m), lambda i, j: between(
        v, d, x, xp, i, j))


@P.contract()
def abs_diff_flat(v):
    """one dimensional inputs: |x_i - x_j|"""
    f = v.fn("africanus.gps.utils:abs_diff")
    n, m, d, x, xp = points(v, "1d")
    out = f(x, xp)
    v.shape_is("X", out, (n, m))

    def one(i, j):
        r, w = v.rd(out, i, j), v.rd(x, i) - v.rd(xp, j)
        if not v.symbolic:
            return v.eq("distance", r, abs(w))
        v.eq("square", r * r, w * w)
        v.ensure("not negative", r >= 0)
    v.each((n, m), one)


@P.contract(params=[dict(dims=d) for d in (1, 2, "nd")])
def exponential_squared(v, dims):
    """sigma^2 exp(-|x - xp|^2 / (2 l^2))"""
    f = v.fn("africanus.gps.kernels:exponential_squared")
    n, m, d, x, xp = points(v, dims)
    s, l = v.real("sigmaf"), v.real("l", nonzero=True)
    if not v.symbolic and abs(l) < 0.05:
        l = 0.3
    out = f(x, xp, s, l)
    v.all_eq("K", out, (n, m), lambda i, j: s * s * v.exp(
        -dist2(v, x, xp, d, i, j) / (2 * l * l)))


@P.contract()
def kernel_flat(v):
    """one dimensional inputs"""
    f = v.fn("africanus.gps.kernels:exponential_squared")
    n, m, d, x, xp = points(v, "1d")
    s, l = v.real("sigmaf"), v.real("l", nonzero=True)
    if not v.symbolic and abs(l) < 0.05:
        l = 0.3
    out = f(x, xp, s, l)
    v.all_eq("K", out, (n, m), lambda i, j: s * s * v.exp(
        -(v.rd(x, i) - v.rd(xp, j)) * (v.rd(x, i) - v.rd(xp, j)) /
        (2 * l * l)))


@P.contract(params=[dict(dims=d) for d in (1, 2, "nd")])
def covariance(v, dims):
    """k(x, x) is symmetric with sigma^2 on the diagonal"""
    f = v.fn("africanus.gps.kernels:exponential_squared")
    n, m, d, x, xp = points(v, dims)
    s, l = v.real("sigmaf"), v.real("l", nonzero=True)
    if not v.symbolic and abs(l) < 0.05:
        l = 0.3
    out = f(x, x, s, l)
    v.each((n, n), lambda i, j: v.eq("symmetric", v.rd(out, i, j),
                                     v.rd(out, j, i)))
    v.each((n,), lambda i: v.eq("diagonal", v.rd(out, i, i), s * s))


@P.contract(params=[dict(case=c) for c in range(3)], symbolic=False)
def pspec_refused(v, case):
    """power spectra are refused for more than one dimension, different
    points and irregular grids"""
    f = v.fn("africanus.gps.kernels:exponential_squared")
    n = v.dim("n", 3)
    s, l = v.real("sigmaf"), v.real("l", positive=True)
    import numpy as np
    x = np.arange(n, dtype=float).reshape(n, 1)
    if case == 0:
        y = np.hstack([x, x])
        bad = (y, y)
    elif case == 1:
        y = x.copy()
        y[int(v.int("k", 0, n))] += 0.25
        bad = (x, y)
    else:
        y = x.copy()
        y[int(v.int("k", 2, n))] += 0.25
        bad = (y, y)
    v.raises("bad grid", ValueError if case else NotImplementedError,
             lambda: f(bad[0], bad[1], s, l, True))


@P.contract(symbolic=False)
def pspec_regular(v):
    """bounded: regular grids are accepted; the spectrum is positive,
    symmetric, largest at zero frequency and scales with sigma^2"""
    import numpy as np
    f = v.fn("africanus.gps.kernels:exponential_squared")
    n = v.dim("n", 3)
    step = v.choice([0.25, 0.5, 1.0, 2.0])
    x = (np.arange(n) * step + v.choice([0.0, 1.0, -4.0])).reshape(n, 1)
    s, l = v.real("sigmaf", 0.5, 2.0), v.real("l", 0.1, 2.0)
    p = f(x, x.copy(), s, l, True)
    v.ensure("shape", p.shape == (n,))
    v.ensure("positive", bool((p > 0).all()))
    c = n // 2
    v.ensure("peak", int(p.argmax()) == c)
    for i in range(1, n - c):
        v.eq("symmetric", float(p[c - i]), float(p[c + i]))
    v.ensure("amplitude", bool(np.allclose(f(x, x, 2 * s, l, True), 4 * p)))
