"""Phase delay and feed rotation."""
from math import pi
from pyvc.registry import Prop

P = Prop("C05", ["sqrt, sin and cos are uninterpreted functions with the "
                 "identities sqrt(x)^2 = x and sin^2 + cos^2 = 1"])
C = 2.99792458e8


def args(v):
    ns, nf = v.dim("ns"), v.dim("nf")
    return ns, nf


def phase(v, lm, uvw, freq, conv, s, r, c):
    k = (-2 * pi / C) * (1 if conv == "fourier" else -1)
    l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
    n = v.sqrt(1 - l*l - m*m)
    ph = k * (l * v.rd(uvw, r, 0) + m * v.rd(uvw, r, 1) +
              (n - 1) * v.rd(uvw, r, 2)) * v.rd(freq, c)
    return v.cplx(v.cos(ph), v.sin(ph))


@P.contract(params=[dict(conv="fourier"), dict(conv="casa")])
def phase_delay(v, conv):
    """K = exp(-+2 pi i (ul + vm + w(n-1)) nu / c)"""
    f = v.fn("africanus.rime.phase:phase_delay")
    ns, nr, nf = v.dim("ns"), v.dim("nr"), v.dim("nf")
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    uvw = v.array("uvw", (nr, 3), float)
    freq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    out = f(lm, uvw, freq, convention=conv)
    v.all_eq("K", out, (ns, nr, nf), lambda s, r, c: phase(
        v, lm, uvw, freq, conv, s, r, c))


@P.contract()
def phase_default(v):
    """the default convention is fourier; an unknown one is refused"""
    f = v.fn("africanus.rime.phase:phase_delay")
    ns, nr, nf = v.dim("ns"), v.dim("nr"), v.dim("nf")
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    uvw = v.array("uvw", (nr, 3), float)
    freq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    out = f(lm, uvw, freq)
    v.all_eq("K", out, (ns, nr, nf), lambda s, r, c: phase(
        v, lm, uvw, freq, "fourier", s, r, c))
    v.raises("unknown convention", ValueError,
             lambda: f(lm, uvw, freq, convention="other"))


@P.contract(params=[dict(conv="fourier"), dict(conv="casa")])
def phase_lazy(v, conv):
    """the chunked version agrees for every chunking"""
    f = v.fn("africanus.rime.dask:phase_delay")
    cs, cr, cf = v.chunks("s", 2), v.chunks("r", 2), v.chunks("f", 2)
    ns, nr, nf = cs[0] + cs[1], cr[0] + cr[1], cf[0] + cf[1]
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    uvw = v.array("uvw", (nr, 3), float)
    freq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    out = f(v.dask(lm, cs, None), v.dask(uvw, cr, None), v.dask(freq, cf),
            convention=conv)
    v.all_eq("K", out, (ns, nr, nf), lambda s, r, c: phase(
        v, lm, uvw, freq, conv, s, r, c))


def feed(v, feed_type, p, a, b):
    c, s = v.cos(p), v.sin(p)
    if feed_type == "linear":
        return [[c, s], [-s, c]][a][b]
    return [[v.cplx(c, -s), 0j], [0j, v.cplx(c, s)]][a][b]


@P.contract(params=[dict(t=t, nd=n, dt=d) for t in ("linear", "circular")
                    for n in (1, 2, 3) for d in ("f8", "f4")])
def feed_rotation(v, t, nd, dt):
    """linear: [[cos, sin], [-sin, cos]]; circular: diag(e^-ip, e^ip)"""
    f = v.fn("africanus.rime.feeds:feed_rotation")
    sh = tuple(v.dim("n%d" % k) for k in range(nd))
    pa = v.array("pa", sh, dt)
    out = f(pa, feed_type=t)
    v.ensure("dtype", out.dtype == ("c16" if dt == "f8" else "c8"))
    v.all_eq("L", out, sh + (2, 2), lambda *i: feed(
        v, t, v.rd(pa, *i[:-2]), i[-2], i[-1]))


@P.contract()
def feed_rejects(v):
    """unknown feed types and non floating point angles are refused"""
    f = v.fn("africanus.rime.feeds:feed_rotation")
    n = v.dim("n")
    pa, ip = v.array("pa", (n,), float), v.array("ip", (n,), int)
    v.raises("feed type", ValueError, lambda: f(pa, feed_type="elliptic"))
    v.raises("dtype", ValueError, lambda: f(ip))


@P.contract(params=[dict(t=t) for t in ("linear", "circular")])
def feed_lazy(v, t):
    """the chunked version agrees for every chunking"""
    f = v.fn("africanus.rime.dask:feed_rotation")
    ct, ca = v.chunks("t", 2), v.chunks("a", 2)
    nt, na = ct[0] + ct[1], ca[0] + ca[1]
    pa = v.array("pa", (nt, na), float)
    out = f(v.dask(pa, ct, ca), t)
    v.all_eq("L", out, (nt, na, 2, 2), lambda i, j, a, b: feed(
        v, t, v.rd(pa, i, j), a, b))
