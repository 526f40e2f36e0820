"""Source models: Gaussian shapes and spectra."""
from math import pi, sqrt, log
from pyvc.registry import Prop
from contracts.lazy import lazy

P = Prop("C13", ["exp, log, log10, sin, cos and real powers are "
                 "uninterpreted functions"])
G = "africanus.model.shape.gaussian_shape:"
S = "africanus.model.spectral.spec_model:"
W = "africanus.model.wsclean.spec_model:"
C = 2.99792458e8
K = sqrt(2.0) * pi / (2.0 * sqrt(2.0 * log(2.0))) / C


@P.contract(params=[dict(point=x) for x in (False, True)])
def gaussian(v, point):
    """exp of minus the squared scaled uv distance along the axes of the
    source; a source without major axis is a point"""
    f = v.fn(G + "gaussian")
    ns, nr, nf = v.dim("ns"), v.dim("nr"), v.dim("nf")
    uvw = v.array("uvw", (nr, 3), float)
    fq = v.array("freq", (nf,), float, lo=1e6, hi=1e7)
    sp = v.array("shape", (ns, 3), float, lo=0.1, hi=2.0)
    if point and not v.symbolic:
        sp = sp.copy()
        sp[:, 0] = 0
    out = f(uvw, fq, sp)
    v.shape_is("shape", out, (ns, nr, nf))

    def one(s, r, c):
        emaj, emin, a = [v.rd(sp, s, k) for k in range(3)]
        v.assume(emaj == 0 if point else emaj > 0)
        u, w = v.rd(uvw, r, 0), v.rd(uvw, r, 1)
        k = K * v.rd(fq, c)
        x = (u * v.cos(a) - w * v.sin(a)) * emin * k
        y = (u * v.sin(a) + w * v.cos(a)) * emaj * k
        v.eq("shape", v.rd(out, s, r, c),
             1.0 if point else v.exp(-(x * x + y * y)))
    v.each((ns, nr, nf), one)


BASES = [0, 1, 2, "std", "log", "log10"]
MIX = [[0, 1, 2, 0], ["log", "std"], ["log10"], [2, 0], ["std", "log10",
                                                         "log"]]
POL = [None, 1, 2, 4]


def kinds(base, npol):
    b = list(base) if isinstance(base, list) else [base]
    b = b + [b[-1]] * (npol - len(b))
    return [{0: "std", 1: "log", 2: "log10"}.get(x, x) for x in b[:npol]]


@P.contract(params=[dict(base=b, npol=p) for b in BASES + [None] for p in POL] + [
    dict(base=b, npol=p) for b in MIX for p in (2, 4)])
def spectrum(v, base, npol):
    """per polarisation: flux times powers of the frequency ratio, or the
    exponential of a polynomial in its logarithm"""
    f = v.fn(S + "spectral_model")
    ns, nf, ni = v.dim("ns"), v.dim("nf"), v.dim("ni")
    pd = () if npol is None else (npol,)
    st = v.array("stokes", (ns,) + pd, float, lo=0.5, hi=2.0)
    spi = v.array("spi", (ns, ni) + pd, float, lo=-1.0, hi=1.0)
    rf = v.array("ref", (ns,), float, lo=0.5, hi=2.0)
    fq = v.array("freq", (nf,), float, lo=0.5, hi=2.0)
    out = f(st, spi, rf, fq) if base is None else f(st, spi, rf, fq,
                                                    base=base)
    base = 0 if base is None else base
    v.shape_is("spectrum", out, (ns, nf) + pd)
    ks = kinds(base, npol or 1)

    def one(s, c, p=None):
        q = () if p is None else (p,)
        x = v.rd(fq, c) / v.rd(rf, s)
        i0 = v.rd(st, s, *q)
        if v.symbolic:
            v.assume(v.and_(v.rd(rf, s) > 0, v.rd(fq, c) > 0))
        k = ks[p or 0]
        if k == "std":
            want = i0 * v.prod(ni, lambda i: v.pow(x, v.rd(spi, s, i, *q)))
        else:
            L = v.log(x) if k == "log" else v.f1("log10", x)
            I0 = v.log(i0) if k == "log" else v.f1("log10", i0)
            e = I0 + v.sum(ni, lambda i: v.rd(spi, s, i, *q) * v.pow(
                L, i + 1))
            want = v.exp(e) if k == "log" else v.pow(10, e)
        v.eq("spectrum", v.rd(out, s, c, *q), want)
    if npol is None:
        v.each((ns, nf), one)
    else:
        for p in range(npol):
            v.each((ns, nf), lambda s, c: one(s, c, p))


@P.contract(params=[dict(base=b, npol=p) for b in (0, "log", "log10")
                    for p in (None, 2)], symbolic=False)
def spectrum_numpy(v, base, npol):
    """bounded: the plain numpy version agrees"""
    f, g = v.fn(S + "spectral_model"), v.fn(S + "numpy_spectral_model")
    ns, nf, ni = v.dim("ns"), v.dim("nf"), v.dim("ni", 1)
    pd = () if npol is None else (npol,)
    a = (v.array("stokes", (ns,) + pd, float, lo=0.5, hi=2.0),
         v.array("spi", (ns, ni) + pd, float, lo=-1.0, hi=1.0),
         v.array("ref", (ns,), float, lo=0.5, hi=2.0),
         v.array("freq", (nf,), float, lo=0.5, hi=2.0))
    x, y = f(*a, base=base), g(*a, base)
    v.all_eq("spectrum", y, x.shape, lambda *i: x[i])


@P.contract()
def spectrum_refused(v):
    """unknown bases and disagreeing polarisations are refused"""
    f = v.fn(S + "spectral_model")
    ns, nf = 2, v.dim("nf", 1)
    st = v.array("stokes", (ns, 2), float, lo=0.5, hi=2.0)
    s1 = v.array("stokes1", (ns,), float, lo=0.5, hi=2.0)
    spi = v.array("spi", (ns, 1, 2), float, lo=-1.0, hi=1.0)
    sp4 = v.array("spi4", (ns, 1, 4), float, lo=-1.0, hi=1.0)
    rf = v.array("ref", (ns,), float, lo=0.5, hi=2.0)
    fq = v.array("freq", (nf,), float, lo=0.5, hi=2.0)
    v.raises("base", ValueError, lambda: f(st, spi, rf, fq, base=3))
    v.raises("base name", ValueError, lambda: f(st, spi, rf, fq,
                                                base="ln"))
    v.raises("base type", TypeError, lambda: f(st, spi, rf, fq, base=1.5))
    v.raises("polarisations", ValueError, lambda: f(st, sp4, rf, fq))
    v.raises("dimensions", ValueError, lambda: f(s1, spi, rf, fq))


@P.contract(params=[dict(lp=x) for x in ("array", True, False)])
def wsclean(v, lp):
    """ordinary or logarithmic polynomials per source"""
    f = v.fn(W + "spectra")
    ns, nf, ni = v.dim("ns"), v.dim("nf"), v.dim("ni")
    i0 = v.array("I", (ns,), float, lo=0.5, hi=2.0)
    co = v.array("coeffs", (ns, ni), float, lo=0.1, hi=1.0)
    rf = v.array("ref", (ns,), float, lo=0.5, hi=2.0)
    fq = v.array("freq", (nf,), float, lo=0.5, hi=2.0)
    lg = v.array("log_poly", (ns,), bool) if lp == "array" else lp
    v.axiom(i0, lambda x, *i: x > 0)
    v.axiom(co, lambda x, *i: x > 0)
    v.axiom(rf, lambda x, *i: x > 0)
    v.axiom(fq, lambda x, *i: x > 0)
    out = f(i0, co, lg, rf, fq)
    v.shape_is("spectrum", out, (ns, nf))

    def one(s, c):
        x = v.rd(fq, c) / v.rd(rf, s)
        a = v.exp(v.log(v.rd(i0, s)) + v.sum(ni, lambda i: v.rd(
            co, s, i) * v.pow(v.log(x), i + 1)))
        b = v.rd(i0, s) + v.sum(ni, lambda i: v.rd(co, s, i) * v.pow(
            x - 1, i + 1))
        if lp == "array":
            v.eq("flux", v.rd(out, s, c), v.where(v.rd(lg, s), a, b))
        else:
            v.eq("flux", v.rd(out, s, c), a if lp else b)
    v.each((ns, nf), one)


@P.contract(params=[dict(lp=x) for x in ("array", False)])
def wsclean_ordinary(v, lp):
    """ordinary polynomials take any flux and coefficients"""
    f = v.fn(W + "spectra")
    ns, nf, ni = v.dim("ns"), v.dim("nf"), v.dim("ni")
    i0 = v.array("I", (ns,), float)
    co = v.array("coeffs", (ns, ni), float)
    rf = v.array("ref", (ns,), float, lo=0.5, hi=2.0)
    fq = v.array("freq", (nf,), float, lo=0.5, hi=2.0)
    lg = v.input_fn("log_poly", (ns,), bool, lambda s: False) \
        if lp == "array" else False
    v.axiom(rf, lambda x, *i: x > 0)
    v.axiom(fq, lambda x, *i: x > 0)
    out = f(i0, co, lg, rf, fq)
    v.all_eq("flux", out, (ns, nf), lambda s, c: v.rd(i0, s) + v.sum(
        ni, lambda i: v.rd(co, s, i) * v.pow(
            v.rd(fq, c) / v.rd(rf, s) - 1, i + 1)))


@P.contract(symbolic=False)
def wsclean_refused(v):
    """bounded: arrays of different length and non positive fluxes of
    logarithmic polynomials are refused"""
    import numpy as np
    f = v.fn(W + "spectra")
    ns, nf, ni = v.dim("ns", 1), v.dim("nf", 1), v.dim("ni", 1)
    i0 = v.array("I", (ns,), float, lo=0.5, hi=2.0)
    co = v.array("coeffs", (ns, ni), float, lo=0.1, hi=1.0)
    rf = v.array("ref", (ns,), float, lo=0.5, hi=2.0)
    fq = v.array("freq", (nf,), float, lo=0.5, hi=2.0)
    bad = i0.copy()
    bad[int(v.rng.integers(0, ns))] = v.choice([0.0, -1.0])
    v.raises("flux", ValueError, lambda: f(bad, co, True, rf, fq))
    more = np.concatenate([i0, i0[:1]])
    v.raises("sources", ValueError, lambda: f(more, co, False, rf, fq))
    v.raises("ref freq", ValueError, lambda: f(
        i0, co, False, rf[:-1], fq))
    v.raises("log_poly", ValueError, lambda: f(
        i0, co, np.zeros(ns + 1, bool), rf, fq))


@P.contract(params=[dict(npol=p, base=b) for p in (None, 2)
                    for b in (0, "log")])
def spectrum_lazy(v, npol, base):
    """chunking sources and channels does not change the result"""
    import numpy as np
    cs, cf = v.chunks("s", 2), v.chunks("f", 2)
    ns, nf = cs[0] + cs[1], cf[0] + cf[1]
    ni = v.dim("ni", 1)
    pd = () if npol is None else (npol,)
    pn = () if npol is None else ("p",)
    args = [("stokes", v.array("stokes", (ns,) + pd, float, lo=.5, hi=2.),
             ("s",) + pn),
            ("spi", v.array("spi", (ns, ni) + pd, float, lo=-1., hi=1.),
             ("s", "i") + pn),
            ("ref_freq", v.array("ref", (ns,), float, lo=.5, hi=2.), ("s",)),
            ("frequency", v.array("freq", (nf,), float, lo=.5, hi=2.),
             ("f",))]
    lazy(v, "africanus.model.spectral.dask:spectral_model",
         S + "spectral_model", args, {"s": cs, "f": cf},
         (("s", "f") + pn, (ns, nf) + pd, np.dtype(float)),
         kw=dict(base=base))


@P.contract(params=[dict(lp=x) for x in ("array", True, False)])
def wsclean_lazy(v, lp):
    """chunking sources and channels does not change the result"""
    import numpy as np
    cs, cf = v.chunks("s", 2), v.chunks("f", 2)
    ns, nf = cs[0] + cs[1], cf[0] + cf[1]
    ni = v.dim("ni", 1)
    args = [("I", v.array("stokes", (ns,), float, lo=.5, hi=2.), ("s",)),
            ("coeffs", v.array("spi", (ns, ni), float, lo=.1, hi=1.),
             ("s", "i")),
            ("log_poly", v.array("lp", (ns,), bool), ("s",))
            if lp == "array" else ("log_poly", lp, None),
            ("ref_freq", v.array("ref", (ns,), float, lo=.5, hi=2.), ("s",)),
            ("frequency", v.array("freq", (nf,), float, lo=.5, hi=2.),
             ("f",))]
    lazy(v, "africanus.model.wsclean.dask:spectra", W + "spectra", args,
         {"s": cs, "f": cf}, (("s", "f"), (ns, nf), np.dtype(float)))


@P.contract()
def gaussian_lazy(v):
    """chunking sources, rows and channels does not change the result"""
    import numpy as np
    cs, cf, cr = v.chunks("s", 2), v.chunks("f", 2), v.chunks("r", 2)
    ns, nf, nr = cs[0] + cs[1], cf[0] + cf[1], cr[0] + cr[1]
    args = [("uvw", v.array("uvw", (nr, 3), float), ("r", "u")),
            ("frequency", v.array("freq", (nf,), float, lo=1e6, hi=1e7),
             ("f",)),
            ("shape_params", v.array("sp", (ns, 3), float, lo=.1, hi=2.),
             ("s", "x"))]
    lazy(v, "africanus.model.shape.dask:gaussian", G + "gaussian", args,
         {"s": cs, "f": cf, "r": cr},
         (("s", "r", "f"), (ns, nr, nf), np.dtype(float)))
