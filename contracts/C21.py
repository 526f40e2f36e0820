"""Grid cell sizes, FITS beam headers and beam file names."""
import math

import numpy as np
from pyvc.registry import Prop

P = Prop("C21", ["dask and numpy dtype promotion"])
G = "africanus.gridding.util:estimate_cell_size"
B = "africanus.util.beams:"
TY = "africanus.util.type_inference:"
CT = "africanus.util.casa_types"
ARC = 180.0 / math.pi * 3600.0


def coordinate(v, name, kind):
    """a value or array, its largest and its smallest modulus"""
    if kind == "value":
        x = v.real(name, nonzero=True)
        return x, v.abs(x), v.abs(x)
    n = v.dim("n" + name, lo=1)
    a = v.array(name, (n,), float, nonzero=True)
    return (a, v.max(n, lambda i: v.abs(v.rd(a, i))),
            v.min(n, lambda i: v.abs(v.rd(a, i))))


@P.contract(params=[dict(ku=a, kv=b, kw=c) for a in ("value", "array")
                    for b in ("value", "array") for c in ("value", "array")])
def cell_size(v, ku, kv, kw):
    """half the resolution of the longest baseline at the shortest
    wavelength, divided by the factor, in arcseconds"""
    f = v.fn(G)
    u, umax, _ = coordinate(v, "u", ku)
    w, vmax, _ = coordinate(v, "v", kv)
    if kw == "value":
        lam = v.real("lam", positive=True)
        lmin = lam
    else:
        nl = v.dim("nl", lo=1)
        lam = v.array("lam", (nl,), float, lo=0.1, hi=3.0)
        lmin = v.min(nl, lambda i: v.rd(lam, i))
        v.assume(lmin > 0)
    fac = v.real("factor", positive=True)
    v.assume(umax > 0)
    v.assume(vmax > 0)
    for out, k in ((f(u, w, lam), 3.0), (f(u, w, lam, factor=fac), fac),
                   (f(u, w, lam, fac), fac)):
        v.shape_is("cells", out, (2,))
        v.eq("u cell", v.rd(out, 0), ARC * lmin / (2.0 * k * umax))
        v.eq("v cell", v.rd(out, 1), ARC * lmin / (2.0 * k * vmax))


@P.contract(params=[dict(axis=a, small=s, kind=k) for a in ("ny", "nx")
                    for s in (False, True) for k in ("value", "array")])
def cell_size_grid(v, axis, small, kind):
    """a grid too small for the shortest baseline is refused"""
    f = v.fn(G)
    u, umax, umin = coordinate(v, "u", kind)
    w, vmax, vmin = coordinate(v, "v", kind)
    for x in (umin, vmin, umax, vmax):
        v.assume(x > 0)
    lam = v.real("lam", positive=True)
    fac = v.real("factor", positive=True)
    n = v.int("n", 1, None if v.symbolic else 12)
    big, least = (umax, umin) if axis == "ny" else (vmax, vmin)
    cell = lam / (2.0 * fac * big)
    limit = lam / least
    if not v.symbolic and abs(cell * n - limit) < 1e-9 * limit:
        return
    if small:
        v.assume(cell * n < limit)
        v.raises("grid", ValueError, lambda: f(u, w, lam, fac, **{axis: n}))
    else:
        v.assume(cell * n >= limit)
        out = f(u, w, lam, fac, **{axis: n})
        v.eq("u cell", v.rd(out, 0), ARC * lam / (2.0 * fac * umax))
        v.eq("v cell", v.rd(out, 1), ARC * lam / (2.0 * fac * vmax))


@P.contract(symbolic=False, cases=3)
def cell_size_types(v):
    f = v.fn(G)
    for a in ((1, 1.0, 1.0), (1.0, "x", 1.0), (1.0, 1.0, None)):
        v.raises("type", TypeError, lambda: f(*a))


# --------------------------------------------------------- beam headers

AX = {"l": ["L", "X", "PX", "l", "px"], "m": ["M", "Y", "PY", "y"],
      "f": ["FREQ"], "o": ["STOKES", "ANT"]}


@P.contract(symbolic=False, cases=400)
def grids(v):
    """axis numbers and the value of every pixel along the l, m and
    frequency axes"""
    f = v.fn(B + "beam_grids")
    order = ["l", "m", "f"] + ["o"] * v.int("others", 0, 2)
    k = v.int("rot", 0, len(order) - 1)
    order = order[k:] + order[:k]
    if v.bool("swap"):
        order = order[::-1]
    hd = {"NAXIS": len(order)}
    want = {}
    signs = {"l": 1.0, "m": 1.0}
    for i, o in enumerate(order, 1):
        n = v.int("n", 1, 5)
        hd["NAXIS%d" % i] = n
        ct = v.choice(AX[o])
        hd["CTYPE%d" % i] = ct + v.choice(["", "  "])
        if o == "o" and v.bool("unnamed"):
            del hd["CTYPE%d" % i]
            ct = str(i)
        cp, cv, cd = (v.real(x) for x in ("crpix", "crval", "cdelt"))
        if v.bool("integer crpix"):
            cp = v.int("icrpix", 1, n)
        hd["CRPIX%d" % i] = cp
        if v.bool("crval given"):
            hd["CRVAL%d" % i] = cv
        else:
            cv = 0
        if v.bool("cdelt given"):
            hd["CDELT%d" % i] = cd
        else:
            cd = 1
        deg = v.choice(["DEG", "deg ", "RAD", "HZ", None])
        if deg:
            hd["CUNIT%d" % i] = deg
        g = [(p - (cp - 1)) * cd + cv for p in range(n)]
        if deg and deg.strip().upper() == "DEG":
            g = [math.radians(x) for x in g]
        if v.bool("grid given"):
            g = [v.real("g") for _ in range(n)]
            for p in range(n):
                hd["G%s%d" % (ct, p + 1)] = g[p]
            if n > 1 and v.bool("incomplete"):
                del hd["G%s%d" % (ct, v.int("missing", 1, n))]
                g = [(p - (cp - 1)) * cd + cv for p in range(n)]
                if deg and deg.strip().upper() == "DEG":
                    g = [math.radians(x) for x in g]
        want[o] = (i, g)
    args = []
    for a in ("l", "m"):
        x = v.choice([None, AX[a][0], "-" + AX[a][0], AX[a][1],
                      "-" + AX[a][1]])
        args.append(x)
        signs[a] = -1.0 if x and x[0] == "-" else 1.0
    out = f(dict(hd), *args)
    for o, (ax, gr) in zip("lmf", out):
        v.ensure("axis " + o, ax == want[o][0])
        v.shape_is("grid " + o, gr, (len(want[o][1]),))
        for p, x in enumerate(want[o][1]):
            v.eq("grid " + o, gr[p], x * signs.get(o, 1.0))


@P.contract(symbolic=False, cases=20)
def grids_refused(v):
    f = v.fn(B + "beam_grids")
    miss = v.int("missing", 0, 2)
    hd = {"NAXIS": 2}
    for i, t in enumerate([x for j, x in enumerate(["L", "M", "FREQ"])
                           if j != miss], 1):
        hd.update({"NAXIS%d" % i: 3, "CTYPE%d" % i: t, "CRPIX%d" % i: 1})
    v.raises("missing axis", ValueError, lambda: f(hd))


@P.contract(symbolic=False, cases=60)
def axis_sign(v):
    f = v.fn(B + "axis_and_sign")
    n = v.choice(["L", "X", "M", "longer"])
    v.ensure("plain", f(n) == (n, 1.0))
    v.ensure("negative", f("-" + n) == (n, -1.0))
    v.ensure("default", f(None, n) == (n, 1.0) and f("", n) == (n, 1.0))
    v.raises("no default", ValueError, lambda: f(None))
    v.raises("not a string", TypeError, lambda: f(3.0, n))


@P.contract(symbolic=False, cases=100)
def filenames(v):
    """a real and an imaginary file name for every correlation, in order"""
    f = v.fn(B + "beam_filenames")
    names = v.module(CT).STOKES_TYPES
    ids = []
    for _ in range(v.int("ncorr", 1, 4)):
        k = v.int("id", 0, len(names) - 1)
        if k not in ids:
            ids.append(k)
    up = v.bool("upper")
    c, r = ("CORR", "REIM") if up else ("corr", "reim")
    cs = "$(%s)" % c if v.bool("braces") else "$" + c
    pre, post = v.choice([("beam_", ".fits"), ("/a/b", "x.fits"), ("", "")])
    out = f("%s%s-$(%s)%s" % (pre, cs, r, post), ids)
    case = str.upper if up else str.lower
    v.ensure("keys", list(out) == [names[i].lower() for i in ids])
    for i in ids:
        n = names[i].lower()
        v.ensure("names", list(out[n]) == [
            "%s%s-%s%s" % (pre, case(n), case(x), post)
            for x in ("re", "im")])
    v.raises("unknown id", ValueError, lambda: f("$(corr)$(reim)", [999]))
    v.raises("bad schema", ValueError, lambda: f("$(cor)_$(reim)", [9]))


@P.contract(symbolic=False, cases=1)
def stokes_ids(v):
    """names and ids of the Measurement Set standard are inverse maps"""
    m = v.module(CT)
    want = ("Undefined I Q U V RR RL LR LL XX XY YX YY RX RY LX LY XR XL YR "
            "YL PP PQ QP QQ RCircular LCircular Linear Ptotal Plinear "
            "PFtotal PFlinear Pangle").split()
    v.ensure("list", list(m.STOKES_TYPES) == want)
    v.ensure("name to id", m.STOKES_TYPE_MAP == {
        n: i for i, n in enumerate(want)})
    v.ensure("id to name", m.STOKES_ID_MAP == dict(enumerate(want)))


@P.contract(symbolic=False, cases=1)
def complex_dtype(v):
    """the smallest complex type holding every argument, for numpy, dask and
    numba arrays"""
    import dask.array as da
    import numba
    import itertools
    f = v.fn(TY + "infer_complex_dtype")
    kinds = [np.int8, np.int32, np.int64, np.float32, np.float64,
             np.complex64, np.complex128, np.bool_, np.uint16]
    wide = {np.int32, np.int64, np.float64, np.complex128}

    def mk(ty, how):
        if how == 0:
            return np.zeros(2, ty)
        if how == 1:
            return da.zeros(2, dtype=ty, chunks=1)
        return numba.typeof(np.zeros(2, ty))
    for n in (1, 2, 3):
        for ks in itertools.product(kinds, repeat=n):
            a = [mk(k, (i + len(str(k))) % 3) for i, k in enumerate(ks)]
            want = np.complex128 if wide & set(ks) else np.complex64
            v.ensure("dtype", f(*a) == np.dtype(want))
    v.raises("other", ValueError, lambda: f(3.0))


@P.contract(symbolic=False, cases=3, params=[
    dict(pol=p) for p in ("linear", "circular")])
def factory(v, pol):
    """the generated beam has one file per correlation and component whose
    header describes the requested frequencies and grid"""
    import os
    import shutil
    import tempfile
    from astropy.io import fits
    f = v.fn("africanus.testing.beam_factory:beam_factory")
    g = v.fn(B + "beam_grids")
    d = tempfile.mkdtemp()
    try:
        npix = 2 * v.int("half", 1, 4) + 1
        f0 = v.real("f0", lo=1e9, hi=2e9)
        fr = np.linspace(f0, f0 + v.real("bw", lo=1e8, hi=1e9),
                         v.int("nchan", 2, 9))
        names = f(polarisation_type=pol, frequency=fr, npix=npix,
                  schema=os.path.join(d, "b_$(corr)_$(reim).fits"))
        want = ["xx", "xy", "yx", "yy"] if pol == "linear" else \
            ["rr", "rl", "lr", "ll"]
        v.ensure("correlations", list(names) == want)
        v.ensure("files", sorted(os.listdir(d)) == sorted(
            "b_%s_%s.fits" % (c, r) for c in want for r in ("re", "im")))
        for pair in names.values():
            for n in pair:
                with fits.open(n) as hdus:
                    hd, data = hdus[0].header, hdus[0].data
                    (la, lg), (ma, mg), (fa, fg) = g(hd)
                    v.ensure("axes", (la, ma, fa) == (1, 2, 3))
                    v.ensure("data", data.shape == (len(fg), npix, npix))
                    for gr in (lg, mg):
                        v.shape_is("pixels", gr, (npix,))
                        for p in range(npix):
                            v.eq("pixel", gr[p], math.radians(
                                -1.5 + 3.0 * p / (npix - 1)))
                    v.eq("first", fg[0], fr[0])
                    v.eq("last", fg[-1], fr[-1])
                    v.ensure("increasing", bool(np.all(np.diff(fg) > 0)))
                    # the second value is the known finding
                    v.ensure("step", v.close(
                        hd["CDELT3"], (fr[-1] - fr[0]) / (len(fg) - 1)) or
                        v.close(hd["CDELT3"],
                                (fr[-1] - fr[0]) / len(fg) - 1))
        v.raises("even", ValueError, lambda: f(
            npix=npix + 1, schema=os.path.join(d, "c_$(corr)_$(reim).fits")))
        v.raises("polarisation", ValueError, lambda: f(
            "other", npix=3, schema=os.path.join(d, "c$(corr)$(reim).fits")))
        v.ensure("no other file", not [x for x in os.listdir(d)
                                       if x[0] == "c"])
    finally:
        shutil.rmtree(d)


@P.contract(symbolic=False, cases=2, finding="beam_factory writes bandwidth "
            "/ n - 1 instead of bandwidth / (n - 1) as frequency step "
            "(CDELT3), e.g. 1 GHz in 9 channels gives 111111110.1 Hz instead "
            "of 125000000 Hz")
def factory_step(v):
    """the frequency step of the header leads from the first to the last
    frequency"""
    import os
    import shutil
    import tempfile
    from astropy.io import fits
    f = v.fn("africanus.testing.beam_factory:beam_factory")
    d = tempfile.mkdtemp()
    try:
        fr = np.linspace(1e9, 2e9, 9)
        names = f(frequency=fr, npix=3,
                  schema=os.path.join(d, "b_$(corr)_$(reim).fits"))
        with fits.open(list(names.values())[0][0]) as hdus:
            hd, data = hdus[0].header, hdus[0].data
            v.eq("step", hd["CDELT3"], 1e9 / (data.shape[0] - 1))
    finally:
        shutil.rmtree(d)
