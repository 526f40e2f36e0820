"""Polyhedron gridding: policies, kernels, gridder and degridder."""
import math

import numpy as np

from pyvc.registry import Prop

P = Prop("C16", [
    "sin, cos and sqrt are uninterpreted real functions with "
    "sin^2 + cos^2 = 1 and sqrt(x)^2 = x for x >= 0",
    "numpy.round is some integer within half a unit"])
G = "africanus.gridding.perleypolyhedron."
SC = G + "policies.stokes_conversion_policies:"
BT = G + "policies.baseline_transform_policies:"
PT = G + "policies.phase_transform_policies:"
CP = G + "policies.convolution_policies:"
KN = G + "kernels:"

# correlation = sum of coefficient * Stokes parameter
DEF = {"XX": {"I": 1, "Q": 1}, "XY": {"U": 1, "V": 1j},
       "YX": {"U": 1, "V": -1j}, "YY": {"I": 1, "Q": -1},
       "RR": {"I": 1, "V": 1}, "RL": {"Q": 1, "U": 1j},
       "LR": {"Q": 1, "U": -1j}, "LL": {"I": 1, "V": -1}}
FROM_I = ["XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I", "RRRLLRLL_FROM_I",
          "XXYY_FROM_Q", "XXXYYXYY_FROM_Q", "RLLR_FROM_Q", "RRRLLRLL_FROM_Q",
          "XYYX_FROM_U", "XXXYYXYY_FROM_U", "RLLR_FROM_U", "RRRLLRLL_FROM_U",
          "XYYX_FROM_V", "XXXYYXYY_FROM_V", "RRLL_FROM_V", "RRRLLRLL_FROM_V"]
TO_I = ["I_FROM_XXYY", "I_FROM_XXXYYXYY", "I_FROM_RRLL", "I_FROM_RRRLLRLL",
        "Q_FROM_XXYY", "Q_FROM_XXXYYXYY", "Q_FROM_RRRLLRLL", "U_FROM_XYYX",
        "U_FROM_XXXYYXYY", "U_FROM_RLLR", "U_FROM_RRRLLRLL", "V_FROM_RRLL",
        "V_FROM_RRRLLRLL", "V_FROM_XYYX", "V_FROM_XXXYYXYY"]


def corrs(name):
    return [name[i:i + 2] for i in range(0, len(name), 2)]


@P.contract(params=[dict(pol=p) for p in TO_I])
def to_stokes(v, pol):
    """applied to the correlations of a source the policy gives back its
    Stokes parameter, and half the matching combination of correlations"""
    f = v.fn(SC + "corr2stokes")
    s, c = pol.split("_FROM_")
    c = corrs(c)
    st = {k: v.real("stokes" + k) for k in "IQUV"}
    x = v.make("x", [v.cplx(
        sum((complex(DEF[k][q]).real * st[q] for q in DEF[k]), 0),
        sum((complex(DEF[k][q]).imag * st[q] for q in DEF[k]), 0))
        for k in c], complex)
    v.eq("stokes", f(x, pol), st[s])
    n = len(c)
    y = v.array("y", (n,), complex)
    want = 0
    for i, k in enumerate(c):
        if s in DEF[k]:
            want = want + v.rd(y, i) * (complex(DEF[k][s]).conjugate() * 0.5)
    v.eq("combination", f(y, pol), want)


@P.contract(params=[dict(pol=p) for p in FROM_I])
def from_stokes(v, pol):
    """adds the contribution of the Stokes parameter to each correlation"""
    f = v.fn(SC + "stokes2corr")
    c, s = pol.split("_FROM_")
    c = corrs(c)
    n = len(c)
    y = v.array("y", (n,), complex)
    old = [v.rd(y, i) for i in range(n)]
    x = v.cplx(v.real("re"), v.real("im"))
    v.modifies(y)
    f(x, y, pol)
    for i, k in enumerate(c):
        v.eq("correlation", v.rd(y, i),
             old[i] + x * complex(DEF[k].get(s, 0)))
    v.eq("number", v.fn(SC + "ncorr_out")(pol), n)
    v.eq("number (python)", v.fn(SC + "ncorr_outpy")(pol)(), n)


@P.contract()
def unknown(v):
    """unknown policies are refused"""
    y = v.array("y", (4,), complex)
    u = v.array("uvw", (3,), float)
    lam = v.array("lam", (2,), float)
    vis = v.array("vis", (2, 4), complex)
    for nm, call in (
            ("stokes", lambda: v.fn(SC + "corr2stokes")(y, "I_FROM_ALL")),
            ("corr", lambda: v.fn(SC + "stokes2corr")(0.5, y, "ALL_FROM_I")),
            ("ncorr", lambda: v.fn(SC + "ncorr_out")("ALL_FROM_I")),
            ("ncorrpy", lambda: v.fn(SC + "ncorr_outpy")("ALL_FROM_I")),
            ("uvw", lambda: v.fn(BT + "policy")(
                u, 0.1, 0.2, 0.3, 0.4, "turn")),
            ("phase", lambda: v.fn(PT + "policy")(
                vis, u, lam, 0.1, 0.2, 0.3, 0.4, policy_type="turn"))):
        v.raises(nm, ValueError, call)


# --------------------------------------------------------------- baselines

def frame_rows(v, ra, dec):
    """the documented T(ra, dec)"""
    c, s, cd, sd = v.cos(ra), v.sin(ra), v.cos(dec), v.sin(dec)
    return [[c, -s, 0], [-sd * s, -sd * c, cd], [cd * s, cd * c, sd]]


def centre(v):
    ra0, dec0 = v.real("ra0", -1, 1), v.real("dec0", -1, 1)
    ra, dec = v.real("ra", -1, 1), v.real("dec", -1, 1)
    return ra0, dec0, ra, dec


def offsets(v, ra0, dec0, ra, dec):
    d = ra - ra0
    l = v.cos(dec) * v.sin(d)
    m = v.sin(dec) * v.cos(dec0) - v.cos(dec) * v.sin(dec0) * v.cos(d)
    n = v.sin(dec) * v.sin(dec0) + v.cos(dec) * v.cos(dec0) * v.cos(d)
    return l, m, n


def rotated(v, o, c):
    """T(ra, dec) transpose(T(ra0, dec0)) uvw; the product depends on the
    difference of the right ascensions only"""
    ra0, dec0, ra, dec = c
    a = frame_rows(v, ra - ra0, dec)
    b = frame_rows(v, 0.0, dec0)
    out = []
    for i in range(3):
        t = 0
        for k in range(3):
            s = 0
            for j in range(3):
                s = s + b[j][k] * o[j]
            t = t + a[i][k] * s
        out.append(t)
    return out


@P.contract(params=[dict(pol=p) for p in ("None", "rotate", "wlinapprox")])
def baseline(v, pol):
    """nothing; the documented rotation; the planar approximation of w"""
    f = v.fn(BT + "policy")
    c = centre(v)
    u = v.array("uvw", (3,), float)
    o = [v.rd(u, i) for i in range(3)]
    if pol == "wlinapprox":
        l, m, n = offsets(v, *c)
        v.assume(n > 0)
    v.modifies(u)
    f(u, c[0], c[1], c[2], c[3], pol)
    if pol == "None":
        want = o
    elif pol == "rotate":
        want = rotated(v, o, c)
        new = [v.rd(u, i) for i in range(3)]
        v.eq("length", sum((x * x for x in new), 0),
             sum((x * x for x in o), 0))
    else:
        want = [o[0] - o[2] * l / n, o[1] - o[2] * m / n, o[2]]
    for i in range(3):
        v.eq("uvw"[i], v.rd(u, i), want[i])


@P.contract(params=[dict(pol=p, sign=s) for p in ("None", "phase_rotate")
                    for s in (1.0, -1.0)])
def phase(v, pol, sign):
    """every visibility is multiplied by exp(+-2 pi i (ul + vm + w(n-1)) /
    wavelength), (l, m, n) the new centre as seen from the old one"""
    f = v.fn(PT + "policy")
    c = centre(v)
    l, m, _ = offsets(v, *c)
    v.assume(1 - l * l - m * m >= 0)
    nc, nk = v.dim("nc"), v.dim("nk")
    u = v.array("uvw", (3,), float)
    lam = v.array("lam", (nc,), float, lo=0.1, hi=3.0)
    vis = v.array("vis", (nc, nk), complex)
    old = vis.copy()
    v.modifies(vis)
    f(vis, u, lam, c[0], c[1], c[2], c[3], policy_type=pol, phasesign=sign)
    if pol == "None":
        v.all_eq("vis", vis, (nc, nk), lambda i, k: v.rd(old, i, k))
        return
    n = v.sqrt(1 - l * l - m * m)

    def spec(i, k):
        x = sign * 2 * math.pi * (
            v.rd(u, 0) * l + v.rd(u, 1) * m + v.rd(u, 2) * (n - 1)
        ) / v.rd(lam, i)
        return v.rd(old, i, k) * v.cplx(v.cos(x), v.sin(x))
    v.all_eq("vis", vis, (nc, nk), spec)


# ----------------------------------------------------------------- kernels

@P.contract(params=[dict(os=o) for o in (1, 2, 3, 5)])
def packing(v, os):
    """packing groups the kernel by its oversampling phase and unpacking
    undoes it"""
    pk, un = v.fn(KN + "pack_kernel"), v.fn(KN + "unpack_kernel")
    w = v.dim("w", 1)
    k = v.array("k", (os * (w + 2),), float)
    p = pk(k, w, oversample=os)
    v.shape_is("packed", p, (os * (w + 2),))
    for t in range(os):
        v.all_eq("phase %d" % t, p[t * (w + 2):(t + 1) * (w + 2)], (w + 2,),
                 lambda j: v.rd(k, os * j + t))
    v.all_eq("unpacked", un(p, w, oversample=os), (os * (w + 2),),
             lambda i: v.rd(k, i))
    q = pk(un(k, w, oversample=os), w, oversample=os)
    v.all_eq("packed again", q, (os * (w + 2),), lambda i: v.rd(k, i))


@P.contract(symbolic=False, cases=60)
def kernels(v):
    """bounded: positions of the taps, normalisation, symmetry"""
    m = v.module(G + "kernels")
    w = v.choice([1, 3, 5, 7, 9])
    o = v.int("os", 1, 9)
    u = m.uspace(w, o)
    v.eq("length", len(u), o * (w + 2))
    for i in range(len(u)):
        v.eq("position", float(u[i]), i / float(o) - (w + 2) // 2)
    v.raises("even", AssertionError, lambda: m.uspace(w + 1, o))
    for nm, k in (("sinc", m.sinc(w, oversample=o)),
                  ("hanning", m.hanningsinc(w, oversample=o)),
                  ("kb", m.kbsinc(w, oversample=o))):
        v.eq(nm + " length", len(k), o * (w + 2))
        v.eq(nm + " sum", float(np.sum(k)), 1.0)
        mid = o * ((w + 2) // 2)
        for i in range(1, mid + 1):
            if mid + i < len(k):
                v.eq(nm + " symmetric", float(k[mid - i]),
                     float(k[mid + i]))
    a = v.real("a", 0.1, 2.0)
    s = m.sinc(w, oversample=o, a=a)
    r = np.sinc(u * a)
    v.ensure("sinc", bool(np.allclose(s * r.sum(), r)))
    # the windows multiply the plain sinc
    h = m.sinc(w, oversample=o) * (a + (1 - a) * np.cos(
        2 * np.pi * u / (w + 3)))
    v.ensure("hanning window", bool(np.allclose(m.hanningsinc(
        w, a=a, oversample=o) * h.sum(), h)))
    from scipy.special import jn
    od, b = v.choice([1, 2, 15]), v.real("b", 5.0, 20.0)
    k = m.sinc(w, oversample=o) * jn(od, b * np.sqrt(
        1 - (2 * u / (w + 3)) ** 2))
    if abs(k.sum()) > 1e-3 * abs(k).sum():
        v.ensure("bessel window", bool(np.allclose(m.kbsinc(
            w, b=b, oversample=o, order=od) * k.sum(), k,
            atol=1e-8 * abs(k).max())))
    fit = np.poly1d(np.polyfit([1.5, 2.0, 2.5, 3.0, 3.5], [
        0.7600, 0.7146, 0.6185, 0.5534, 0.5185], 3))(w + 2)
    v.ensure("hanning default", bool(np.allclose(
        m.hanningsinc(w, oversample=o),
        m.hanningsinc(w, a=fit, oversample=o))))


@P.contract(symbolic=False, cases=25)
def detaper(v):
    """bounded: the Fourier transform of the kernel over the image, by all
    three functions"""
    m = v.module(G + "kernels")
    w, o = v.choice([1, 3]), v.choice([1, 2, 3, 5])
    npix = v.choice([4, 5, 7, 8])
    k = v.array("k", (o * (w + 2),), float)
    k2 = np.outer(k, k)
    u = np.arange(o * (w + 2)) / float(o) - (w + 2) // 2
    x = (np.arange(npix) - npix // 2) / float(npix)
    f = np.array([(k * np.exp(-2j * np.pi * t * u)).sum() for t in x])
    want = np.abs(np.outer(f, f))
    v.ensure("separable", bool(np.allclose(
        m.compute_detaper_dft_seperable(npix, k, w, oversample=o), want)))
    v.ensure("dft", bool(np.allclose(
        m.compute_detaper_dft(npix, k2, w, oversample=o), want)))
    if npix >= w + 2:
        v.ensure("fft", bool(np.allclose(
            m.compute_detaper(npix, k2, w, oversample=o), want)))


# ------------------------------------------------------------- convolution

def tap(v, scaled, npix, kernel, w, os, packed):
    """nearest cell and kernel sample of a tap: tap number t of the kernel
    sits t - w // 2 cells from the nearest one and is sampled at the
    oversampled distance from the true coordinate"""
    off = scaled + npix // 2
    near = v.trunc(v.f1("rint", off))
    frac = v.trunc((near - off) * os)

    def sample(t):
        i = (t + 1) * os + frac
        if packed:
            # the sample of phase i mod os, number i div os
            i = v.where(frac < 0, (os + frac) * (w + 2) + t,
                        frac * (w + 2) + t + 1)
        return v.rd(kernel, i)
    return near, sample


def conv_args(v, w, os):
    npix = v.dim("npix", 1, 8)
    k = v.array("kernel", (os * (w + 2),), float)
    su, sv = v.real("su", -9, 9), v.real("sv", -9, 9)
    nr, nc = v.dim("nr", 1), v.dim("nc", 1)
    r, c = v.fresh_int(0, nr), v.fresh_int(0, nc)
    vis = v.array("vis", (nr, nc, 2), complex)
    grid = v.array("grid", (npix, npix), complex)
    return npix, k, su, sv, r, c, vis, grid


CONV = [dict(w=w, os=o, packed=p) for w, o in ((None, 1), (None, 4),
                                               (None, 5), (1, None))
        for p in (False, True)]


def polname(packed, what):
    return "conv_1d_axisymmetric_%s_%s" % (
        "packed" if packed else "unpacked", what)


def sizes(v, w, os):
    if w is None:
        w = 2 * v.dim("half", 0) + 1
    if os is None:
        os = v.int("os", 1, 5)
    return w, os


@P.contract(params=CONV)
def scatter(v, w, os, packed):
    """the visibility is added to the cells around its coordinate, weighted
    by the kernel; cells off the grid are left out; the sum of the weights
    is returned"""
    f = v.fn(CP + "policy")
    w, os = sizes(v, w, os)
    npix, k, su, sv, r, c, vis, grid = conv_args(v, w, os)
    old = grid.copy()
    v.modifies(grid)
    cw = f(su, sv, 0.0, npix, grid, vis, r, c, k, w, os, "I_FROM_XXYY",
           policy_type=polname(packed, "scatter"))
    iu, ku = tap(v, su, npix, k, w, os, packed)
    iv, kv = tap(v, sv, npix, k, w, os, packed)
    s = (v.rd(vis, r, c, 0) + v.rd(vis, r, c, 1)) * 0.5

    def weight(x, near, ks):
        t = x - near + w // 2
        on = v.and_(t >= 0, t < w)
        return v.where(on, ks(v.where(on, t, 0)), 0)
    v.all_eq("grid", grid, (npix, npix), lambda y, x: v.rd(old, y, x) +
             s * (weight(y, iv, kv) * weight(x, iu, ku)))
    v.eq("weight", cw, v.sum(w, kv) * v.sum(w, ku))


@P.contract(params=[dict(packed=p) for p in (False, True)])
def gather(v, packed):
    """one tap across, any oversampling"""
    _gather(v, 1, None, packed)


@P.contract(symbolic=False, cases=60)
def gather_wide(v):
    """bounded: more taps"""
    _gather(v, v.choice([1, 3, 5]), v.choice([1, 2, 4, 5]),
            v.choice([False, True]))


def _gather(v, w, os, packed):
    """the visibility is the average of the cells around its coordinate,
    weighted by the kernel, over the cells on the grid"""
    f = v.fn(CP + "policy")
    w, os = sizes(v, w, os)
    npix, k, su, sv, r, c, vis, grid = conv_args(v, w, os)
    old = vis.copy()
    v.modifies(vis)
    iu, ku = tap(v, su, npix, k, w, os, packed)
    iv, kv = tap(v, sv, npix, k, w, os, packed)

    def over(g):
        def cell(tv, tu):
            y, x = iv + tv - w // 2, iu + tu - w // 2
            on = v.and_(y >= 0, y < npix, x >= 0, x < npix)
            return v.where(on, g(v.where(on, y, 0), v.where(on, x, 0)) *
                           kv(tv) * ku(tu), 0)
        return v.sum(w, lambda tv: v.sum(w, lambda tu: cell(tv, tu)))
    acc, cw = over(lambda y, x: v.rd(grid, y, x)), over(lambda y, x: 1)
    f(su, sv, 0.0, npix, grid, vis, r, c, k, w, os, "XXYY_FROM_Q",
      policy_type=polname(packed, "gather"))
    for i in range(2):
        v.eq("visibility", v.rd(vis, r, c, i),
             (v.rd(old, r, c, i) + acc * (1, -1)[i]) / (cw + 1e-8))


# ------------------------------------------------- gridder and degridder

def problem(v, w, os):
    """data, a channel map and centres"""
    c = centre(v)
    l, m, _ = offsets(v, *c)
    v.assume(1 - l * l - m * m >= 0)
    nr, nc, nb = v.dim("nr", 1), v.dim("nc", 1), v.dim("nb", 1)
    npix = v.dim("npix", 1, 8)
    d = dict(
        c=c, lm=(l, m, v.sqrt(1 - l * l - m * m)), nr=nr, nc=nc, nb=nb,
        npix=npix, w=w, os=os, cell=v.real("cell", 0.1, 1e5),
        uvw=v.array("uvw", (nr, 3), float),
        lam=v.array("lam", (nc,), float, lo=0.1, hi=3.0),
        cm=v.array("cm", (nc,), int, lo=0, hi=nb),
        k=v.array("kernel", (os * (w + 2),), float))
    return d


def phasor(v, d, r, c, sign):
    l, m, n = d["lm"]
    u = d["uvw"]
    x = sign * 2 * math.pi * (v.rd(u, r, 0) * l + v.rd(u, r, 1) * m +
                              v.rd(u, r, 2) * (n - 1)) / v.rd(d["lam"], c)
    return v.cplx(v.cos(x), v.sin(x))


def coords(v, d, r, c, bt):
    u = [v.rd(d["uvw"], r, i) for i in range(3)]
    if bt == "rotate":
        if "T" in d:
            u = [sum((v.rd(d["T"], i, j) * u[j] for j in range(3)), 0)
                 for i in range(3)]
        else:
            u = rotated(v, u, d["c"])
    s = d["npix"] * d["cell"] / 3600.0 * math.pi / 180.0
    return [x * s / v.rd(d["lam"], c) for x in u]


def by_contract(v, d, bt):
    """the baseline policy by its contract (proved above): a rotation is
    some linear map of the coordinates given to it"""
    if not v.symbolic or bt != "rotate":
        return
    d["T"] = v.array("T", (3, 3), float)

    def rotate(uvw, ra0, dec0, ra, dec, policy_type):
        for nm, a, b in zip(("ra0", "dec0", "ra", "dec"),
                            (ra0, dec0, ra, dec), d["c"]):
            v.eq(nm, a, b)
        v.ensure("policy", policy_type == "rotate")
        o = [v.rd(uvw, i) for i in range(3)]
        for i in range(3):
            uvw[i] = sum((v.rd(d["T"], i, j) * o[j] for j in range(3)), 0)
    v.use_contract(BT + "policy", rotate)


def common(d):
    ra0, dec0, ra, dec = d["c"]
    return (d["cell"], (ra, dec), (ra0, dec0), d["k"], d["w"], d["os"])


def grid_spec(v, d, vis, bt, pt, packed):
    """direct sums: grids and weights (concrete)"""
    npix, w = d["npix"], d["w"]
    g = np.zeros((int(np.max(d["cm"])) + 1, npix, npix), complex)
    cw = np.zeros(len(g))
    for r in range(d["nr"]):
        for c in range(d["nc"]):
            su, sv, _ = coords(v, d, r, c, bt)
            s = (vis[r, c, 0] + vis[r, c, 1]) * 0.5
            if pt == "phase_rotate":
                s = s * phasor(v, d, r, c, 1)
            iu, ku = tap(v, su, npix, d["k"], w, d["os"], packed)
            iv, kv = tap(v, sv, npix, d["k"], w, d["os"], packed)
            for tv in range(w):
                for tu in range(w):
                    y, x = iv + tv - w // 2, iu + tu - w // 2
                    cw[d["cm"][c]] += kv(tv) * ku(tu)
                    if 0 <= y < npix and 0 <= x < npix:
                        g[d["cm"][c], y, x] += s * kv(tv) * ku(tu)
    return g, cw


def degrid_spec(v, d, g, bt, pt, packed):
    npix, w = d["npix"], d["w"]
    vis = np.zeros((d["nr"], d["nc"], 2), complex)
    for r in range(d["nr"]):
        for c in range(d["nc"]):
            su, sv, _ = coords(v, d, r, c, bt)
            iu, ku = tap(v, su, npix, d["k"], w, d["os"], packed)
            iv, kv = tap(v, sv, npix, d["k"], w, d["os"], packed)
            a, cw = 0, 0
            for tv in range(w):
                for tu in range(w):
                    y, x = iv + tv - w // 2, iu + tu - w // 2
                    if 0 <= y < npix and 0 <= x < npix:
                        a += g[d["cm"][c], y, x] * kv(tv) * ku(tu)
                        cw += kv(tv) * ku(tu)
            if pt == "phase_rotate":
                a = a * phasor(v, d, r, c, -1)
            vis[r, c] = a / (cw + 1e-8)
    return vis


def scaled_cell(v, d):
    """a cell size that puts the samples on or about the grid"""
    d["cell"] = 3600 * 180 / math.pi * v.real("scale", 0.05, 0.6)
    return d


@P.contract(symbolic=False, cases=40)
def grid_wide(v):
    """bounded: every sample is phase rotated, its coordinate transformed
    and scaled by its own wavelength, and added to its band's grid; the
    inputs are left alone; normalising divides by the band's weight"""
    f = v.fn(G + "gridder:gridder")
    w, os = v.choice([1, 3]), v.choice([1, 4])
    d = scaled_cell(v, problem(v, w, os))
    bt, pt = v.choice(["None", "rotate"]), v.choice(["None", "phase_rotate"])
    packed, norm = v.choice([False, True]), v.choice([False, True])
    vis = v.array("vis", (d["nr"], d["nc"], 2), complex)
    keep = [vis.copy(), d["uvw"].copy()]
    cell, ic, pc, k, w, os = common(d)
    g = f(d["uvw"], vis, d["lam"], d["cm"], d["npix"], cell, ic, pc, k, w,
          os, bt, pt, "I_FROM_XXYY", polname(packed, "scatter"),
          do_normalize=norm)
    v.ensure("inputs", bool((vis == keep[0]).all() and
                            (d["uvw"] == keep[1]).all()))
    want, cw = grid_spec(v, d, vis, bt, pt, packed)
    if norm:
        v.assume(bool((abs(cw) > 1e-3).all()))
        want = want / (cw + 1e-8)[:, None, None]
    v.ensure("shape", g.shape == want.shape)
    v.ensure("grid", bool(np.allclose(g, want)))


@P.contract(symbolic=False, cases=40)
def degrid_wide(v):
    """bounded: the gridder's coordinates, the opposite phase, by the serial
    and the row-parallel degridder"""
    w, os = v.choice([1, 3]), v.choice([1, 4])
    d = scaled_cell(v, problem(v, w, os))
    bt, pt = v.choice(["None", "rotate"]), v.choice(["None", "phase_rotate"])
    packed = v.choice([False, True])
    grid = v.array("grid", (d["nb"], d["npix"], d["npix"]), complex)
    keep = [grid.copy(), d["uvw"].copy()]
    d["k"] = abs(d["k"]) + 0.1
    want = degrid_spec(v, d, grid, bt, pt, packed)
    cell, ic, pc, k, w, os = common(d)
    for nm in "degridder", "degridder_serial":
        got = v.fn(G + "degridder:" + nm)(
            d["uvw"], grid, d["lam"], d["cm"], cell, ic, pc, k, w, os, bt,
            pt, "XXYY_FROM_I", polname(packed, "gather"))
        v.ensure("inputs", bool((grid == keep[0]).all() and
                                (d["uvw"] == keep[1]).all()))
        v.ensure("shape", got.shape == want.shape)
        v.ensure(nm, bool(np.allclose(got, want)))


@P.contract(params=[dict(bt=b, pt=p, nm=n) for b in ("None", "rotate")
                    for p in ("None", "phase_rotate")
                    for n in ("degridder", "degridder_serial")])
def degrid(v, bt, pt, nm):
    """the nearest tap, any oversampling: for all rows and channels"""
    f = v.fn(G + "degridder:" + nm)
    d = problem(v, 1, v.int("os", 1, 5))
    npix = d["npix"]
    grid = v.array("grid", (d["nb"], npix, npix), complex)
    cell, ic, pc, k, w, os = common(d)
    by_contract(v, d, bt)
    got = f(d["uvw"], grid, d["lam"], d["cm"], cell, ic, pc, k, w, os, bt,
            pt, "XXYY_FROM_Q", polname(False, "gather"))
    v.shape_is("vis", got, (d["nr"], d["nc"], 2))

    def spec(r, c, i):
        su, sv, _ = coords(v, d, r, c, bt)
        iu, ku = tap(v, su, npix, d["k"], 1, os, False)
        iv, kv = tap(v, sv, npix, d["k"], 1, os, False)
        on = v.and_(iu >= 0, iu < npix, iv >= 0, iv < npix)
        g = v.rd(grid, v.rd(d["cm"], c), v.where(on, iv, 0),
                 v.where(on, iu, 0))
        kk = v.where(on, kv(0) * ku(0), 0)
        a = g * kk / (kk + 1e-8) * (1, -1)[i]
        if pt == "phase_rotate":
            a = a * phasor(v, d, r, c, -1)
        return a
    for i in range(2):
        v.all_eq("correlation %d" % i, got[:, :, i], (d["nr"], d["nc"]),
                 lambda r, c: spec(r, c, i))


@P.contract(params=[dict(bt=b, pt=p) for b in ("None", "rotate")
                    for p in ("None", "phase_rotate")])
def grid_nearest(v, bt, pt):
    """nearest cell: for all rows, channels and channel maps"""
    f = v.fn(G + "gridder:gridder")
    d = problem(v, 1, 1)
    by_contract(v, d, bt)
    nr, nc, npix = d["nr"], d["nc"], d["npix"]
    vis = v.array("vis", (nr, nc, 2), complex)

    def cells(r, c):
        su, sv, _ = coords(v, d, r, c, bt)
        return [v.trunc(v.f1("rint", x + npix // 2)) for x in (sv, su)]
    v.assume_all((nr, nc), lambda r, c: v.and_(*[
        v.and_(x >= 0, x < npix) for x in cells(r, c)]))
    cell, ic, pc, k, w, os = common(d)
    g = f(d["uvw"], vis, d["lam"], d["cm"], npix, cell, ic, pc, k, w, os,
          bt, pt, "I_FROM_XXYY", "conv_nn_scatter")

    def spec(b, y, x):
        def term(r, c):
            iv, iu = cells(r, c)
            s = (v.rd(vis, r, c, 0) + v.rd(vis, r, c, 1)) * 0.5
            if pt == "phase_rotate":
                s = s * phasor(v, d, r, c, 1)
            return v.where(v.and_(v.rd(d["cm"], c) == b, iv == y, iu == x),
                           s, 0)
        return v.sum(nr, lambda r: v.sum(nc, lambda c: term(r, c)))
    v.all_eq("grid", g, (g.shape[0], npix, npix), spec)


# -------------------------------------------------------------------- dask

def split(v, name, n):
    """some chunks of n"""
    k = v.int(name + " split", 1, n + 1)
    return (n,) if k == n else (k, n - k)


def facets(v, d, n):
    ra = v.array("facet ra", (n,), float, lo=-0.2, hi=0.2)
    dec = v.array("facet dec", (n,), float, lo=-0.2, hi=0.2)
    return np.stack([ra, dec], axis=1)


@P.contract(symbolic=False, cases=60)
def grid_lazy(v):
    """bounded: the same grids, facet by facet, however rows, channels and
    facets are chunked"""
    f = v.fn(G + "dask:gridder")
    g = v.fn(G + "gridder:gridder")
    d = scaled_cell(v, problem(v, v.choice([1, 3]), v.choice([1, 4])))
    vis = v.array("vis", (d["nr"], d["nc"], 2), complex)
    n = v.choice([1, 2, 3])
    ic = facets(v, d, n)
    cell, _, pc, k, w, os = common(d)
    pol = (v.choice(["None", "rotate"]), v.choice(["None", "phase_rotate"]),
           "I_FROM_XXYY", polname(v.choice([False, True]), "scatter"))
    r, c = split(v, "rows", d["nr"]), split(v, "chans", d["nc"])
    norm = v.choice([False, True])
    if norm:
        r = (d["nr"],)
    got = f(v.dask(d["uvw"], r, None), v.dask(vis, r, c, None),
            v.dask(d["lam"], c), v.dask(d["cm"], c), d["npix"], cell,
            v.dask(ic, split(v, "facets", n), None), pc, k, w, os, *pol,
            do_normalize=norm)
    res = v.compute(got)
    want = np.stack([g(d["uvw"], vis, d["lam"], d["cm"], d["npix"], cell,
                       ic[i], pc, k, w, os, *pol, do_normalize=norm)
                     for i in range(n)])[:, None]
    v.ensure("shape", res.shape == want.shape)
    v.ensure("lazy", bool(np.allclose(res, want)))


@P.contract(symbolic=False, cases=60)
def degrid_lazy(v):
    """bounded: the sum over the facets, each at its own centre, however the
    arrays are chunked"""
    f = v.fn(G + "dask:degridder")
    g = v.fn(G + "degridder:degridder")
    d = scaled_cell(v, problem(v, v.choice([1, 3]), v.choice([1, 4])))
    d["k"] = abs(d["k"]) + 0.1
    n = v.choice([1, 2, 3])
    ic = facets(v, d, n)
    grid = v.array("grid", (n, d["nb"], d["npix"], d["npix"]), complex)
    cell, _, pc, k, w, os = common(d)
    pol = (v.choice(["None", "rotate"]), v.choice(["None", "phase_rotate"]),
           "XXYY_FROM_Q", polname(v.choice([False, True]), "gather"))
    r, c = split(v, "rows", d["nr"]), split(v, "chans", d["nc"])
    fc = split(v, "facets", n)
    got = f(v.dask(d["uvw"], r, None),
            v.dask(grid, fc, split(v, "bands", d["nb"]), None, None),
            v.dask(d["lam"], c), v.dask(d["cm"], c), cell,
            v.dask(ic, fc, None), pc, k, w, os, *pol,
            rowparallel=v.choice([False, True]))
    v.ensure("declared shape", got.shape == (d["nr"], d["nc"], 2))
    res = v.compute(got)
    want = sum(g(d["uvw"], grid[i], d["lam"], d["cm"], cell, ic[i], pc, k,
                 w, os, *pol) for i in range(n))
    v.ensure("lazy", res.shape == want.shape and
             bool(np.allclose(res, want)))


@P.contract(symbolic=False, cases=2, finding="the dask gridder averages the "
            "grids normalised row chunk by row chunk, so with do_normalize "
            "the result depends on the chunking (e.g. rows (1, 2) of one "
            "cell: (v0 + (v1 + v2) / 2) / 2 instead of (v0 + v1 + v2) / 3)")
def grid_lazy_normalised(v):
    """bounded: normalised grids do not depend on the chunking"""
    f = v.fn(G + "dask:gridder")
    uvw, lam, cm = np.zeros((3, 3)), np.ones(1), np.zeros(1, int)
    vis = np.zeros((3, 1, 2), complex)
    vis[0] = 6.0
    got = v.compute(f(
        v.dask(uvw, (1, 2), None), v.dask(vis, (1, 2), None, None),
        v.dask(lam, (1,)), v.dask(cm, (1,)), 1, 1.0,
        v.dask(np.zeros((1, 2)), None, None), (0.0, 0.0), np.ones(3), 1, 1,
        "None", "None", "I_FROM_XXYY", "conv_nn_scatter",
        do_normalize=True))
    v.eq("grid", complex(got[0, 0, 0, 0, 0]), 2.0)


@P.contract(params=[dict(degrid=f) for f in ("degridder",
                                             "degridder_serial")],
            symbolic=False, cases=1)
def refused(v, degrid):
    """inconsistent shapes are refused"""
    g = v.fn(G + "gridder:gridder")
    f = v.fn(G + "degridder:" + degrid)
    uvw, lam, cm = np.zeros((3, 3)), np.ones(2), np.zeros(2, int)
    vis, grid = np.zeros((3, 2, 2), complex), np.zeros((1, 4, 4), complex)
    t = (1.0, (0.0, 0.0), (0.0, 0.0), np.ones(3), 1, 1, "None", "None")

    def gr(uvw=uvw, vis=vis, lam=lam, cm=cm):
        return g(uvw, vis, lam, cm, 4, *t, "I_FROM_XXYY", "conv_nn_scatter")

    def de(uvw=uvw, grid=grid, lam=lam, cm=cm):
        return f(uvw, grid, lam, cm, *t, "XXYY_FROM_I",
                 polname(False, "gather"))
    gr()
    de()
    v.raises("channel map", ValueError, lambda: gr(cm=cm[:1]))
    v.raises("uvw", ValueError, lambda: gr(uvw=uvw[:, :2]))
    v.raises("rows", ValueError, lambda: gr(uvw=uvw[:2]))
    v.raises("channels", ValueError, lambda: gr(vis=vis[:, :1]))
    v.raises("channel map", ValueError, lambda: de(cm=cm[:1]))
    v.raises("uvw", ValueError, lambda: de(uvw=uvw[:, :2]))
    v.raises("bands", ValueError, lambda: de(cm=cm + 1))
    v.raises("square", ValueError, lambda: de(grid=grid[:, :3]))
