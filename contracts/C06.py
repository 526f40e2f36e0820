"""Direct Fourier transforms."""
from math import pi
from pyvc.registry import Prop
from contracts.lazy import lazy

P = Prop("C06", ["exp, sin, cos and sqrt are uninterpreted functions with "
                 "exp(ix) = cos x + i sin x"])
M = "africanus.dft.kernels:"
C = 2.99792458e8
CONV = [dict(conv=c) for c in ("fourier", "casa")]


def inputs(v, ncorr=None):
    nr, ns, nf = v.dim("nr"), v.dim("ns"), v.dim("nf")
    nc = v.dim("nc", 1) if ncorr is None else ncorr
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    uvw = v.array("uvw", (nr, 3), float)
    freq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    return nr, ns, nf, nc, lm, uvw, freq


def phase(v, lm, uvw, freq, s, r, c):
    """2 pi (u l + v m + w (n - 1)) nu / c"""
    l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
    n = v.sqrt(1 - l * l - m * m)
    return (2 * pi / C) * v.rd(freq, c) * (
        v.rd(uvw, r, 0) * l + v.rd(uvw, r, 1) * m + v.rd(uvw, r, 2) * (n - 1))


def kern(v, conv, *a):
    p = phase(v, *a)
    if conv == "fourier":
        p = -p
    return v.cplx(v.cos(p), v.sin(p))


@P.contract(params=CONV)
def im_to_vis(v, conv):
    """V(r, nu) = sum over sources of I(s, nu) exp(-+2 pi i ...)"""
    f = v.fn(M + "im_to_vis")
    nr, ns, nf, nc, lm, uvw, freq = inputs(v)
    im = v.array("image", (ns, nf, nc), float)
    out = f(im, uvw, lm, freq, convention=conv)
    v.all_eq("vis", out, (nr, nf, nc), lambda r, c, k: v.sum(ns, lambda s: v.rd(
        im, s, c, k) * kern(v, conv, lm, uvw, freq, s, r, c)))


@P.contract()
def im_default(v):
    """the default convention is fourier; unknown ones are refused"""
    f = v.fn(M + "im_to_vis")
    nr, ns, nf, nc, lm, uvw, freq = inputs(v)
    im = v.array("image", (ns, nf, nc), float)
    out = f(im, uvw, lm, freq)
    v.all_eq("vis", out, (nr, nf, nc), lambda r, c, k: v.sum(ns, lambda s: v.rd(
        im, s, c, k) * kern(v, "fourier", lm, uvw, freq, s, r, c)))
    v.raises("convention", ValueError, lambda: f(
        im, uvw, lm, freq, convention="other"))


def flagged(v, flag, r, c, nc):
    return v.exists(nc, lambda k: v.rd(flag, r, c, k))


@P.contract(params=CONV)
def vis_to_im(v, conv):
    """I(s, nu) = real part of the sum over rows without flags of V
    exp(+-2 pi i ...)"""
    f = v.fn(M + "vis_to_im")
    nr, ns, nf, nc, lm, uvw, freq = inputs(v)
    vis = v.array("vis", (nr, nf, nc), complex)
    flag = v.array("flag", (nr, nf, nc), bool)
    out = f(vis, uvw, lm, freq, flag, convention=conv)
    v.all_eq("image", out, (ns, nf, nc), lambda s, c, k: v.sum(
        nr, lambda r: v.where(flagged(v, flag, r, c, nc), 0.0, v.re(
            v.rd(vis, r, c, k) * v.conj(kern(
                v, conv, lm, uvw, freq, s, r, c))))))


@P.contract()
def vis_default(v):
    """the default convention is fourier; unknown ones are refused"""
    f = v.fn(M + "vis_to_im")
    nr, ns, nf, nc, lm, uvw, freq = inputs(v)
    vis = v.array("vis", (nr, nf, nc), complex)
    flag = v.array("flag", (nr, nf, nc), bool)
    out = f(vis, uvw, lm, freq, flag)
    v.all_eq("image", out, (ns, nf, nc), lambda s, c, k: v.sum(
        nr, lambda r: v.where(flagged(v, flag, r, c, nc), 0.0, v.re(
            v.rd(vis, r, c, k) * v.conj(kern(
                v, "fourier", lm, uvw, freq, s, r, c))))))
    v.raises("convention", ValueError, lambda: f(
        vis, uvw, lm, freq, flag, convention="other"))


@P.contract(params=CONV)
def adjoint(v, conv):
    """<A I, V> = <I, A^H V>: the two transforms are adjoint"""
    f, g = v.fn(M + "im_to_vis"), v.fn(M + "vis_to_im")
    nr, ns, nf, nc, lm, uvw, freq = inputs(v, ncorr=1)
    im = v.array("image", (ns, nf, nc), float)
    vis = v.array("vis", (nr, nf, nc), complex)
    flag = v.input_fn("flag", (nr, nf, nc), bool, lambda r, c, k: False)
    a = f(im, uvw, lm, freq, convention=conv)
    b = g(vis, uvw, lm, freq, flag, convention=conv)

    def chan(c):
        v.eq("adjoint", v.sum(nr, lambda r: v.re(v.conj(v.rd(
            vis, r, c, 0)) * v.rd(a, r, c, 0))), v.sum(
                ns, lambda s: v.rd(im, s, c, 0) * v.rd(b, s, c, 0)))
    v.each((nf,), chan)


@P.contract(params=[dict(conv=c, dt=d) for c in ("fourier", "casa")
                    for d in ("complex128", "complex64")])
def im_lazy(v, conv, dt):
    """the chunked transform agrees for every chunking"""
    import numpy as np
    cr, cf, cc = v.chunks("r", 2), v.chunks("f", 2), v.chunks("k", 2)
    nr, nf, nc = cr[0] + cr[1], cf[0] + cf[1], cc[0] + cc[1]
    ns = v.dim("ns", 1)
    args = [("image", v.array("image", (ns, nf, nc), float),
             ("s", "f", "k")),
            ("uvw", v.array("uvw", (nr, 3), float), ("r", "uvw")),
            ("lm", v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6),
             ("s", "lm")),
            ("frequency", v.array("freq", (nf,), float, lo=1e7, hi=1e8),
             ("f",))]
    lazy(v, "africanus.dft.dask:im_to_vis", M + "im_to_vis", args,
         {"r": cr, "f": cf, "k": cc}, (("r", "f", "k"), (nr, nf, nc),
                                       np.dtype(dt)),
         kw=dict(convention=conv, dtype=np.dtype(dt).type))


@P.contract(params=CONV)
def vis_lazy(v, conv):
    """the chunked transform is the sum of the transforms of the row
    blocks"""
    import numpy as np
    cr, cf, cs = v.chunks("r", 2), v.chunks("f", 2), v.chunks("s", 2)
    nr, nf, ns = cr[0] + cr[1], cf[0] + cf[1], cs[0] + cs[1]
    nc = 1
    vis = v.array("vis", (nr, nf, nc), complex)
    uvw = v.array("uvw", (nr, 3), float)
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    freq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    flag = v.array("flag", (nr, nf, nc), bool)
    f = v.fn("africanus.dft.dask:vis_to_im")
    got = f(v.dask(vis, cr, cf, None), v.dask(uvw, cr, None),
            v.dask(lm, cs, None), v.dask(freq, cf),
            v.dask(flag, cr, cf, None), convention=conv)

    def part(s, c, k, lo, n):
        return v.sum(n, lambda r: v.where(v.rd(flag, lo + r, c, k), 0.0, v.re(
            v.rd(vis, lo + r, c, k) * v.conj(kern(
                v, conv, lm, uvw, freq, s, lo + r, c)))))
    v.all_eq("image", got, (ns, nf, nc), lambda s, c, k: part(
        s, c, k, 0, cr[0]) + part(s, c, k, cr[0], cr[1]))
