"""Jones terms: feed rotation, beam coordinates and beam cubes."""
import numpy as np

from pyvc.registry import Prop
from contracts.lazy import lazy

P = Prop("C12", [
    "sin, cos and sqrt are uninterpreted real functions with "
    "sin^2 + cos^2 = 1 and sqrt(x)^2 = x for x >= 0"])
R = "africanus.rime."
D = "africanus.rime.dask:"


def plus(v, x, im):
    return v.cplx(v.cos(x), v.sin(x) if im > 0 else -v.sin(x))


@P.contract(params=[dict(kind=k, nd=n) for k in ("linear", "circular", None)
                    for n in (1, 2, 3)])
def feed(v, kind, nd):
    """the feed rotation of every parallactic angle"""
    f = v.fn(R + "feeds:feed_rotation")
    shape = tuple(v.dim("n%d" % i, lo=1) for i in range(nd))
    pa = v.array("pa", shape, float, lo=-3.0, hi=3.0)
    out = f(pa) if kind is None else f(pa, kind)
    v.shape_is("shape", out, shape + (2, 2))

    def one(*i):
        x = v.rd(pa, *i)
        c, s = v.cos(x), v.sin(x)
        if kind == "circular":
            want = [[v.cplx(c, -s), 0.0], [0.0, v.cplx(c, s)]]
        else:
            want = [[c, s], [-s, c]]
        for a in range(2):
            for b in range(2):
                v.eq("L[%d,%d]" % (a, b), v.rd(out, *(i + (a, b))),
                     want[a][b])
    v.each(shape, one)


@P.contract()
def feed_refused(v):
    """anything else than linear or circular feeds is refused"""
    f = v.fn(R + "feeds:feed_rotation")
    pa = v.array("pa", (v.dim("n", lo=1),), float)
    v.raises("unknown feed", ValueError, lambda: f(pa, "elliptic"))
    ip = v.array("ip", (v.dim("n2", lo=1),), int)
    v.raises("integer angles", ValueError, lambda: f(ip, "linear"))


@P.contract(params=[dict(kind=k, nd=n) for k in ("linear", "circular")
                    for n in (1, 2)])
def feed_lazy(v, kind, nd):
    names = ["p%d" % i for i in range(nd)]
    sizes = {n: v.chunks(n, 2, lo=1) for n in names}
    tot = tuple(sum_(sizes[n]) for n in names)
    pa = v.array("pa", tot, float, lo=-3.0, hi=3.0)
    lazy(v, D + "feed_rotation", R + "feeds:feed_rotation",
         [("parallactic_angles", pa, names), ("feed_type", kind, None)],
         sizes, (names + ["c1", "c2"], tot + (2, 2), complex))


def sum_(cs):
    o = 0
    for c in cs:
        o = c + o
    return o


@P.contract()
def sources(v):
    """lm rotated by the parallactic angle, offset and scaled"""
    f = v.fn(R + "transform:transform_sources")
    ns, nt, na, nc = (v.dim(x) for x in ("ns", "nt", "na", "nc"))
    lm = v.array("lm", (ns, 2), float)
    pa = v.array("pa", (nt, na), float, lo=-3.0, hi=3.0)
    pe = v.array("pe", (nt, na, 2), float)
    sc = v.array("sc", (na, nc), float)
    fq = v.array("fq", (nc,), float)
    out = f(lm, pa, pe, sc, fq)
    v.shape_is("coords", out, (3, ns, nt, na, nc))

    def one(s, t, a, c):
        l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
        x = v.rd(pa, t, a)
        k = v.rd(sc, a, c)
        v.eq("l", v.rd(out, 0, s, t, a, c),
             (l * v.cos(x) - m * v.sin(x) + v.rd(pe, t, a, 0)) * k)
        v.eq("m", v.rd(out, 1, s, t, a, c),
             (l * v.sin(x) + m * v.cos(x) + v.rd(pe, t, a, 1)) * k)
        v.eq("frequency", v.rd(out, 2, s, t, a, c), v.rd(fq, c))
    v.each((ns, nt, na, nc), one)


@P.contract()
def sources_lazy(v):
    sizes = dict(src=v.chunks("s", 2, lo=1), time=v.chunks("t", 2, lo=1),
                 ant=v.chunks("a", 2, lo=1), chan=v.chunks("c", 2, lo=1))
    ns, nt, na, nc = (sum_(sizes[x]) for x in ("src", "time", "ant", "chan"))
    lm = v.array("lm", (ns, 2), float)
    pa = v.array("pa", (nt, na), float, lo=-3.0, hi=3.0)
    pe = v.array("pe", (nt, na, 2), float)
    sc = v.array("sc", (na, nc), float)
    fq = v.array("fq", (nc,), float)
    lazy(v, D + "transform_sources", R + "transform:transform_sources",
         [("lm", lm, ("src", "x")), ("parallactic_angles", pa,
                                     ("time", "ant")),
          ("pointing_errors", pe, ("time", "ant", "x")),
          ("antenna_scaling", sc, ("ant", "chan")),
          ("frequency", fq, ("chan",))],
         sizes, (("comp", "src", "time", "ant", "chan"),
                 (3, ns, nt, na, nc), float))


# ------------------------------------------------------------- beam cubes

def clamp(v, x, hi):
    return v.where(x < 0, 0.0, v.where(x > hi, hi, x))


@P.contract(params=[dict(corr=(1,))], cases=60)
def beam(v, corr):
    """trilinear interpolation of the beam cube at the rotated, offset,
    scaled and clamped coordinates; amplitude and phase are interpolated
    separately"""
    f = v.fn(R + "fast_beam_cubes:beam_cube_dde")
    ns, nt, na, nc = (v.dim(x, lo=1) for x in ("ns", "nt", "na", "nc"))
    lw, mh, nud = (v.dim(x, lo=2) for x in ("lw", "mh", "nud"))
    if corr is None:
        corr = (v.dim("corr", lo=1),)
    cube = v.array("beam", (lw, mh, nud) + corr, complex)
    x0, m0 = v.real("x0"), v.real("m0")
    x1 = x0 + v.real("dl", positive=True)
    m1 = m0 + v.real("dm", positive=True)
    ext = v.make("ext", [[x0, x1], [m0, m1]])
    lm = v.array("lm", (ns, 2), float)
    pa = v.array("pa", (nt, na), float, lo=-3.0, hi=3.0)
    pe = v.array("pe", (nt, na, nc, 2), float)
    sc = v.array("sc", (na, nc, 2), float)
    fq = v.array("fq", (nc,), float, lo=1.0, hi=9.0)
    if v.symbolic:
        fmap = v.array("fmap", (nud,), float)
        data = v.array("fd", (nc, 2), float)
        grid = v.array("fg", (nc,), int, lo=0, hi=nud - 2)
        both = v.input_fn("freq_data", (nc, 3), float, lambda i, j: v.where(
            j == 2, v.rd(grid, i), v.rd(data, i, v.where(j == 2, 0, j))))

        def interp(frequency, beam_freq_map):
            v.ensure("frequencies looked up", frequency is fq)
            v.ensure("map looked up", beam_freq_map is fmap)
            return both
        v.use_contract(R + "fast_beam_cubes:freq_grid_interp", interp)

        def fdata(c):
            return v.rd(data, c, 0), v.rd(data, c, 1), v.rd(grid, c)
    else:
        steps = v.array("fs", (nud,), float, lo=0.2, hi=2.0)
        fmap = v.make("fmap", list(1.0 + np.cumsum(steps)))

        def fdata(c):
            return freq_spec(v, fmap, v.rd(fq, c))
    out = f(cube, ext, fmap, lm, pa, pe, sc, fq)
    v.shape_is("dde", out, (ns, nt, na, nc) + corr)

    def one(s, t, a, c, *k):
        fscale, nu, g0 = fdata(c)
        pc, ps = v.cos(v.rd(pa, t, a)), v.sin(v.rd(pa, t, a))
        tl = v.rd(lm, s, 0) * fscale + v.rd(pe, t, a, c, 0)
        tm = v.rd(lm, s, 1) * fscale + v.rd(pe, t, a, c, 1)
        vl = (tl * pc - tm * ps) * v.rd(sc, a, c, 0)
        vm = (tl * ps + tm * pc) * v.rd(sc, a, c, 1)
        vl = clamp(v, (lw - 1) / (x1 - x0) * (vl - x0), lw - 1)
        vm = clamp(v, (mh - 1) / (m1 - m0) * (vm - m0), mh - 1)
        vl, vm = v.let("vl", vl), v.let("vm", vm)
        l0, m0_ = v.let("l0", v.floor(vl)), v.let("m0", v.floor(vm))
        ld, md = v.let("ld", vl - l0), v.let("md", vm - m0_)
        l1 = v.let("l1", v.where(l0 + 1 > lw - 1, lw - 1, l0 + 1))
        m1_ = v.let("m1", v.where(m0_ + 1 > mh - 1, mh - 1, m0_ + 1))
        z, amp = 0.0, 0.0
        for gl, wl in ((l0, 1.0 - ld), (l1, ld)):
            for gm, wm in ((m0_, 1.0 - md), (m1_, md)):
                for gc, wc in ((g0, nu), (g0 + 1, 1.0 - nu)):
                    b = v.rd(cube, *((gl, gm, gc) + k))
                    z = z + wl * wm * wc * b
                    amp = amp + wl * wm * wc * v.abs(b)
        z, amp = v.let("z", z), v.let("amp", amp)
        got = v.rd(out, *((s, t, a, c) + k))
        n = v.let("n", v.abs(z))
        # (z is 0 where n is)
        v.eq("dde", got, z * amp / v.where(n == 0.0, 1.0, n))
    v.each((ns, nt, na, nc) + corr, one)


@P.contract(symbolic=False, params=[dict(corr=c) for c in ((2,), (2, 2), (4,))],
            cases=100)
def beam_corrs(v, corr):
    """the same for matrices of correlations"""
    beam(v, corr)


def freq_spec(v, fmap, fq):
    """(scale, weight of the lower plane, lower plane)"""
    m = [float(x) for x in fmap]
    if fq < m[0]:
        return fq / m[0], 1.0, 0
    if fq >= m[-1]:
        return fq / m[-1], 0.0, len(m) - 2
    k = max(i for i in range(len(m) - 1) if m[i] <= fq)
    return 1.0, (m[k + 1] - fq) / (m[k + 1] - m[k]), k


@P.contract()
def beam_refused(v):
    f = v.fn(R + "fast_beam_cubes:beam_cube_dde")
    for k in range(3):
        sh = [v.dim("d%d%d" % (k, i), lo=2) for i in range(3)]
        sh[k] = 1
        cube = v.array("beam%d" % k, tuple(sh) + (2,), complex)
        v.raises("one plane along axis %d" % k, ValueError, lambda: f(
            cube, v.make("e%d" % k, [[-1.0, 1.0], [-1.0, 1.0]]),
            v.array("fm%d" % k, (sh[2],), float),
            v.array("lm%d" % k, (2, 2), float),
            v.array("pa%d" % k, (1, 1), float),
            v.array("pe%d" % k, (1, 1, 1, 2), float),
            v.array("sc%d" % k, (1, 1, 2), float),
            v.array("fq%d" % k, (1,), float)))


@P.contract(symbolic=False, cases=400)
def frequencies(v):
    """position of every frequency in the beam's frequency map"""
    f = v.fn(R + "fast_beam_cubes:freq_grid_interp")
    nud, nc = v.int("nud", 2, 6), v.int("nc", 1, 5)
    steps = v.array("fs", (nud,), float, lo=0.2, hi=2.0)
    fmap = v.make("fmap", list(1.0 + np.cumsum(steps)))
    any_ = v.array("any", (nc,), float, lo=0.5, hi=9.0)
    which = v.array("which", (nc,), int, lo=-nud, hi=nud - 1)
    # about half of them are frequencies of the map itself
    fq = v.make("fq", [fmap[w] if w >= 0 else a
                       for w, a in zip(which, any_)], float)
    out = f(fq, fmap)
    v.shape_is("data", out, (nc, 3))
    for c in range(nc):
        sc, w, k = freq_spec(v, fmap, fq[c])
        v.eq("scale", out[c, 0], sc)
        v.eq("weight", out[c, 1], w)
        v.eq("plane", out[c, 2], k)


@P.contract()
def beam_lazy(v):
    sizes = dict(src=v.chunks("s", 2, lo=1), time=v.chunks("t", 2, lo=1),
                 ant=v.chunks("a", 2, lo=1), chan=v.chunks("c", 2, lo=1))
    ns, nt, na, nc = (sum_(sizes[x]) for x in ("src", "time", "ant", "chan"))
    lw, mh, nud = (v.dim(x, lo=2) for x in ("lw", "mh", "nud"))
    cube = v.array("beam", (lw, mh, nud, 2, 2), complex)
    ext = v.make("ext", [[-1.0, 1.0], [-2.0, 1.5]])
    if v.symbolic:
        fmap = v.array("fmap", (nud,), float)
    else:
        steps = v.array("fs", (nud,), float, lo=0.2, hi=2.0)
        fmap = v.make("fmap", list(1.0 + np.cumsum(steps)))
    lm = v.array("lm", (ns, 2), float)
    pa = v.array("pa", (nt, na), float, lo=-3.0, hi=3.0)
    pe = v.array("pe", (nt, na, nc, 2), float)
    sc = v.array("sc", (na, nc, 2), float)
    fq = v.array("fq", (nc,), float, lo=1.0, hi=9.0)
    one = v.chunks
    lazy(v, D + "beam_cube_dde", R + "fast_beam_cubes:beam_cube_dde",
         [("beam", cube, ("lw", "mh", "nud", "c1", "c2")),
          ("beam_lm_extents", ext, ("e1", "e2")),
          ("beam_freq_map", fmap, ("nud",)),
          ("lm", lm, ("src", "x")),
          ("parallactic_angles", pa, ("time", "ant")),
          ("point_errors", pe, ("time", "ant", "chan", "x")),
          ("antenna_scaling", sc, ("ant", "chan", "x")),
          ("frequency", fq, ("chan",))],
         sizes, (("src", "time", "ant", "chan", "c1", "c2"),
                 (ns, nt, na, nc, 2, 2), complex))


@P.contract(params=[dict(ax=a) for a in ("beam", "ext", "map")])
def beam_lazy_refused(v, ax):
    """a chunked beam, extent or frequency map is refused"""
    f = v.fn(D + "beam_cube_dde")
    n = v.chunks("n", 2, lo=1)
    tot = sum_(n)
    cube = v.array("beam", (tot, 3, 3, 2), complex)
    ext = v.array("ext", (2, 2), float)
    fm = v.array("fm", (tot if ax == "map" else 3,), float)
    dc = v.dask(cube, n if ax == "beam" else None, None, None, None)
    de = v.dask(ext, (1, 1) if ax == "ext" else None, None)
    dm = v.dask(fm, n if ax == "map" else None)
    rest = [v.dask(v.array("r%d" % i, s, float), *[None] * len(s))
            for i, s in enumerate([(2, 2), (1, 1), (1, 1, 1, 2), (1, 1, 2),
                                   (1,)])]
    v.raises("chunked " + ax, ValueError, lambda: f(dc, de, dm, *rest))


# --------------------------------------------------------- zernike

def noll(j):
    """(n, m) of Noll index j + 1: the sequential indices of the standard
    ordering, m negative for the sine terms"""
    k, n = j, 0
    while k > n:
        n += 1
        k -= n
    am = [m for m in range(n % 2, n + 1, 2) for _ in range(1 if m == 0 else 2)]
    m = am[k]
    return n, m if (j + 1) % 2 == 0 else -m


def radial(n, m, rho):
    from math import factorial as F
    return sum((-1) ** k * F(n - k) / (
        F(k) * F((n + m) // 2 - k) * F((n - m) // 2 - k)) *
        rho ** (n - 2 * k) for k in range((n - m) // 2 + 1))


def zern(j, rho, phi):
    if rho > 1:
        return 0.0
    n, m = noll(j)
    if m < 0:
        return radial(n, -m, rho) * np.sin(-m * phi)
    return radial(n, m, rho) * np.cos(m * phi)


@P.contract(symbolic=False, params=[dict(corr=c) for c in ((1,), (2,),
                                                           (2, 2))],
            cases=60)
def zernike(v, corr):
    """the sum of the coefficients times their Zernike polynomials at each
    coordinate, zero outside the unit disc"""
    f = v.fn(R + "zernike:zernike_dde")
    ns, nt, na, nc, npoly = (v.int(x, 1, 3) for x in (
        "ns", "nt", "na", "nc", "np"))
    co = v.array("coords", (3, ns, nt, na, nc), float, lo=-0.8, hi=0.8)
    cf = v.array("coeffs", (na, nc) + corr + (npoly,), complex)
    ix = v.array("noll", (na, nc) + corr + (npoly,), int, lo=0, hi=30)
    out = f(co, cf, ix)
    v.shape_is("dde", out, (ns, nt, na, nc) + corr)
    for s, t, a, c in np.ndindex(ns, nt, na, nc):
        l, m = co[0, s, t, a, c], co[1, s, t, a, c]
        rho, phi = np.hypot(l, m), np.arctan2(l, m)
        for k in np.ndindex(*corr):
            v.eq("dde", out[(s, t, a, c) + k], sum(
                cf[(a, c) + k + (p,)] * zern(int(ix[(a, c) + k + (p,)]),
                                             rho, phi)
                for p in range(npoly)))


@P.contract(params=[dict(nk=n) for n in (1, 2)])
def zernike_lazy(v, nk):
    sizes = dict(src=v.chunks("s", 2, lo=1), time=v.chunks("t", 2, lo=1),
                 ant=v.chunks("a", 2, lo=1), chan=v.chunks("c", 2, lo=1))
    ns, nt, na, nc = (sum_(sizes[x]) for x in ("src", "time", "ant", "chan"))
    corr = (2,) * nk
    cn = tuple("k%d" % i for i in range(nk))
    npoly = v.dim("np", lo=1)
    co = v.array("coords", (3, ns, nt, na, nc), float, lo=-0.7, hi=0.7)
    cf = v.array("coeffs", (na, nc) + corr + (npoly,), complex)
    ix = v.array("noll", (na, nc) + corr + (npoly,), int, lo=0, hi=12)
    lazy(v, D + "zernike_dde", R + "zernike:zernike_dde",
         [("coords", co, ("three", "src", "time", "ant", "chan")),
          ("coeffs", cf, ("ant", "chan") + cn + ("poly",)),
          ("noll_index", ix, ("ant", "chan") + cn + ("poly",))],
         sizes, (("src", "time", "ant", "chan") + cn,
                 (ns, nt, na, nc) + corr, complex))


@P.contract(params=[dict(corr=c) for c in ((1,), (2,), (2, 2))], cases=5)
def zernike_sum(v, corr):
    """for every coordinate, antenna, channel and correlation the sum over
    all coefficients, whatever the polynomials are"""
    f = v.fn(R + "zernike:zernike_dde")
    ns, nt, na, nc = (v.dim(x, lo=1) for x in ("ns", "nt", "na", "nc"))
    npoly = v.dim("np", lo=1)
    co = v.array("coords", (3, ns, nt, na, nc), float, lo=-0.7, hi=0.7)
    cf = v.array("coeffs", (na, nc) + corr + (npoly,), complex)
    ix = v.array("noll", (na, nc) + corr + (npoly,), int, lo=0, hi=12)
    if v.symbolic:
        from pyvc import sym

        def poly(j, rho, phi):
            return sym.s_app2("zernike", sym.lift(j), sym.s_app2(
                "polar", sym.lift(rho), sym.lift(phi)))
        v.use_contract(R + "zernike:zernike", poly)
    else:
        def poly(j, rho, phi):
            return zern(int(j), rho, phi)
    out = f(co, cf, ix)
    v.shape_is("dde", out, (ns, nt, na, nc) + corr)

    def one(s, t, a, c):
        l, m = v.rd(co, 0, s, t, a, c), v.rd(co, 1, s, t, a, c)
        rho, phi = v.sqrt(l * l + m * m), v.arctan2(l, m)
        for k in np.ndindex(*corr):
            v.eq("dde", v.rd(out, *((s, t, a, c) + k)), v.sum(
                npoly, lambda p: v.rd(cf, *((a, c) + k + (p,))) * poly(
                    v.rd(ix, *((a, c) + k + (p,))), rho, phi)))
    v.each((ns, nt, na, nc), one)


@P.contract()
def parangles_lazy_and_refused(v):
    """the test backend multiplies time and antenna position; unknown
    backends and malformed field centres are refused"""
    f = v.fn(R + "parangles:parallactic_angles")
    nt, na = v.dim("nt", lo=1), v.dim("na", lo=1)
    ti = v.array("times", (nt,), float)
    ap = v.array("ap", (na, 3), float)
    fc = v.array("fc", (2,), float)
    out = f(ti, ap, fc, backend="test")
    v.shape_is("pa", out, (nt, na))
    v.each((nt, na), lambda t, a: v.eq(
        "pa", v.rd(out, t, a), v.rd(ti, t) * (
            v.rd(ap, a, 0) + v.rd(ap, a, 1) + v.rd(ap, a, 2))))
    v.raises("unknown backend", ValueError, lambda: f(
        ti, ap, fc, backend="other"))
    v.raises("field centre", ValueError, lambda: f(
        ti, ap, v.array("fc3", (3,), float), backend="test"))
