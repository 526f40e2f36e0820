"""Spectral index fits: Gauss-Newton steps, lazy version."""
import contextlib
import io

import numpy as np

from contracts.lazy import lazy
from pyvc.registry import Prop

P = Prop("C15", [
    "pow and log are uninterpreted real functions",
    "the number of components (1, 2) and of iterations (1, 2) is concrete, "
    "the number of channels and all data are symbolic"])
M = "africanus.model.spi.component_spi:"


def muted():
    """the code prints a warning when the iterations run out"""
    return contextlib.redirect_stdout(io.StringIO())


def quiet(f, *a, **kw):
    with muted():
        return f(*a, **kw)


def step(v, n, data, wgt, w, b, a, i0, mindet):
    """one Gauss-Newton step of the weighted least squares fit of
    b i0 w^a: new a, its variance, new i0, its variance"""
    def model(k):
        return i0 * (b(k) * v.pow(w(k), a))

    def ja(k):
        return model(k) * v.log(w(k))

    def ji(k):
        return b(k) * v.pow(w(k), a)

    def r(k):
        return data(k) - model(k)

    def dot(x, y):
        return v.sum(n, lambda k: x(k) * wgt(k) * y(k))
    haa, hai, hii = dot(ja, ja), dot(ja, ji), dot(ji, ji)
    ga, gi, lik = dot(ja, r), dot(ji, r), dot(r, r)
    det = haa * hii - hai * hai
    det = v.where(det < mindet, mindet, det)
    return (a + (hii * ga - hai * gi) / det, hii / det * lik / (n - 2),
            i0 + (haa * gi - hai * ga) / det, haa / det * lik / (n - 2))


def setup(v, nc, opts):
    n = v.dim("n", 3)
    d = dict(n=n, nc=nc, data=v.array("data", (nc, n), float, lo=0.5, hi=3.0),
             wgt=v.array("wgt", (n,), float, lo=0.5, hi=2.0),
             fq=v.array("fq", (n,), float, lo=0.8, hi=2.0),
             f0=v.real("f0", 0.9, 1.5), kw={})
    if "a" in opts:
        d["kw"]["alphai"] = v.array("ai", (nc,), float, lo=-1.0, hi=0.5)
    if "i" in opts:
        d["kw"]["I0i"] = v.array("ii", (nc,), float, lo=0.5, hi=3.0)
    if "b" in opts:
        d["kw"]["beam"] = v.array("beam", (nc, n), float, lo=0.5, hi=1.0)
    return d


def spec(v, d, c, niter, tol, mindet=1e-12):
    """the result of at most niter steps that stop when neither parameter
    changes by more than tol"""
    ai, bm = d["kw"].get("alphai"), d["kw"].get("beam")

    def w(k):
        return v.rd(d["fq"], k) / d["f0"]

    def b(k):
        return v.rd(bm, c, k) if bm is not None else 1.0
    a = v.rd(ai, c) if ai is not None else -0.7
    i = v.rd(d["kw"]["I0i"], c)

    def go(a, i, left):
        r = step(v, d["n"], lambda k: v.rd(d["data"], c, k),
                 lambda k: v.rd(d["wgt"], k), w, b, a, i, mindet)
        if left == 1:
            return r
        stop = v.and_(v.abs(r[0] - a) <= tol, v.abs(r[2] - i) <= tol)
        more = go(r[0], r[2], left - 1)
        return tuple(v.where(stop, x, y) for x, y in zip(r, more))
    return go(a, i, niter)


NAMES = ("alpha", "alpha variance", "intensity", "intensity variance")


@P.contract(params=[dict(nc=c, opts=o) for c in (1, 2)
                    for o in ("ai", "aib", "i", "ib")], cases=40)
def one_step(v, nc, opts):
    """a single iteration makes exactly one Gauss-Newton step and reports
    the variances of that step, for every component on its own"""
    f = v.fn(M + "fit_spi_components")
    d = setup(v, nc, opts)
    out = quiet(f, d["data"], d["wgt"], d["fq"], d["f0"], tol=1e-6,
                maxiter=1, **d["kw"])
    v.shape_is("out", out, (4, nc))
    for c in range(nc):
        want = spec(v, d, c, 1, 1e-6)
        for k, nm in enumerate(NAMES):
            v.eq(nm, v.rd(out, k, c), want[k])


@P.contract(params=[dict(nc=2, opts=o) for o in ("ai", "aib", "ib")],
            symbolic=False, cases=40)
def few_steps(v, nc, opts):
    """every iteration starts where the one before ended, and none is made
    after one that changed neither parameter by more than the tolerance"""
    f = v.fn(M + "fit_spi_components")
    d = setup(v, nc, opts)
    tol = v.real("tol", 0.01, 0.9)
    m = int(v.int("maxiter", 1, 6))
    out = quiet(f, d["data"], d["wgt"], d["fq"], d["f0"], tol=tol, maxiter=m,
                **d["kw"])
    for c in range(nc):
        want = spec(v, d, c, m, tol)
        # a diverging fit amplifies rounding
        v.assume(all(abs(x) < 50.0 for x in want))
        for k, nm in enumerate(NAMES):
            v.eq(nm, v.rd(out, k, c), want[k])


@P.contract(symbolic=False, cases=60)
def first_guess(v):
    """without initial guesses the fit starts at a spectral index of -0.7 and
    at the data, corrected for the beam, of the channel nearest to the
    reference frequency (the first of two that are equally near)"""
    f = v.fn(M + "fit_spi_components")
    beam = "b" if bool(v.int("withbeam", 0, 2)) else ""
    d = setup(v, 2, beam)
    fq = np.round(np.asarray(d["fq"], float), 1)
    f0 = round(float(d["f0"]), 1)
    dist = [round(abs(float(x) - f0), 6) for x in fq]
    near = dist.index(min(dist))
    v.assume(sum(abs(x - dist[near]) < 1e-9 for x in dist) == 1 or
             any(float(x) == f0 for x in fq))
    b = d["kw"].get("beam", np.ones_like(d["data"]))
    one = dict(tol=1e-6, maxiter=1)
    got = quiet(f, d["data"], d["wgt"], fq, f0, **one, **d["kw"])
    want = quiet(f, d["data"], d["wgt"], fq, f0, **one, **d["kw"],
                 alphai=np.full(2, -0.7),
                 I0i=d["data"][:, near] / b[:, near])
    v.all_eq("same fit", got, (4, 2), lambda i, j: want[i, j])


@P.contract(params=[dict(dt=t) for t in ("float64", "float32")],
            symbolic=False, cases=40)
def recovery(v, dt):
    """an exact power law is recovered from a nearby guess, seen through any
    beam, for any weights, with variances of zero"""
    f = v.fn(M + "fit_spi_components")
    n, nc = int(v.int("n", 3, 9)), 2
    al = v.array("al", (nc,), float, lo=-1.2, hi=0.3)
    i0 = v.array("i0", (nc,), float, lo=0.5, hi=3.0)
    wgt = v.array("wgt", (n,), float, lo=0.5, hi=2.0)
    beam = v.array("beam", (nc, n), float, lo=0.5, hi=1.0)
    fq = np.linspace(0.8, 1.7, n)
    f0 = float(v.real("f0", 0.9, 1.5))
    w = fq / f0
    data = beam * i0[:, None] * w[None, :] ** al[:, None]
    ty = np.dtype(dt)
    small = ty == np.float32
    out = quiet(f, data.astype(ty), wgt.astype(ty), fq.astype(ty),
                ty.type(f0), beam=beam.astype(ty),
                tol=1e-3 if small else 1e-6)
    v.ensure("dtype", out.dtype == ty)
    # quadratic convergence: far closer than the tolerance
    lim = 2e-4 if small else 1e-8
    for c in range(nc):
        v.ensure("alpha", abs(out[0, c] - al[c]) < lim)
        v.ensure("intensity", abs(out[2, c] - i0[c]) < lim)
        v.ensure("alpha variance", 0 <= out[1, c] < lim)
        v.ensure("intensity variance", 0 <= out[3, c] < lim)


@P.contract(params=[dict(dt=t) for t in ("complex128", "int64")],
            symbolic=False, cases=3)
def refused(v, dt):
    """data that is neither single nor double precision real is refused"""
    f = v.fn(M + "fit_spi_components")
    fq = np.linspace(0.8, 1.7, 4)
    v.raises("data type", ValueError, lambda: f(
        np.ones((2, 4), dt), np.ones(4), fq, 1.0))


@P.contract(params=[dict(opts=o, nf=k) for o in ("", "aib", "a")
                    for k in (1, 2)], symbolic=False, cases=30)
def spi_lazy(v, opts, nf):
    """chunking components and channels does not change the fit, nor do
    defaults differ"""
    cs, cf = v.chunks("c", 2), v.chunks("f", nf)
    nc, n = sum(map(int, cs)), sum(map(int, cf))
    v.assume(n >= 3)
    fq = np.linspace(0.8, 1.7, n)
    al = v.array("al", (nc,), float, lo=-1.2, hi=0.3)
    data = v.array("i0", (nc,), float, lo=0.5, hi=3.0)[:, None] * \
        fq[None, :] ** al[:, None] * v.array("e", (nc, n), float, lo=.9,
                                             hi=1.1)
    cn, ch = ("c",), ("f",)
    args = [("data", data, cn + ch),
            ("weights", v.array("wgt", (n,), float, lo=0.5, hi=2.0), ch),
            ("freqs", fq, ch), ("freq0", 1.1, None),
            ("alphai", v.array("ai", (nc,), float, lo=-1.0, hi=0.0)
             if "a" in opts else None, cn),
            ("I0i", v.array("ii", (nc,), float, lo=0.5, hi=3.0)
             if "i" in opts else None, cn),
            ("beam", v.array("beam", (nc, n), float, lo=0.8, hi=1.0)
             if "b" in opts else None, cn + ch)]
    kw = dict(maxiter=int(v.int("maxiter", 1, 4)))
    if bool(v.int("tolgiven", 0, 2)):
        kw["tol"] = 10.0 ** -int(v.int("tol", 1, 6))
    with muted():
        lazy(v, "africanus.model.spi.dask:fit_spi_components",
             M + "fit_spi_components", args, {"c": cs, "f": cf}, None, kw=kw)
