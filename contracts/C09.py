"""Band-wise imaging operators around the ducc gridder."""
import types
import itertools
import numpy as np
from pyvc.registry import Prop

P = Prop("C09", assumptions=[
    "ducc0.wgridder.dirty2ms / ms2dirty are replaced by their documented "
    "meaning: a linear operator given by one complex kernel per (uvw, "
    "frequency, pixel), weights and mask applied to the visibilities, and "
    "its adjoint; real_ducc re-checks that against the installed library",
    "number of imaging bands (1..3) and of dask blocks (<=2 per dimension) "
    "is concrete, band sizes, channels, rows, pixels and data are symbolic"])
W = "africanus.gridding.wgridder"
C = 2.99792458e8


# ------------------------------------------------ assumed contract of ducc
def kern(v, u, w_, f, x, y, nx, ny, px, py, ws):
    """complex kernel; u = (u,v,w)"""
    if v.symbolic:
        from pyvc import terms as t, sym
        args = []
        for a in (u[0], u[1], w_, f, x, y, nx, ny, px, py, 1 if ws else 0):
            a = sym.lift(a).re
            args.append(t.to_real(a))
        return sym.SV(t.app("duccK.re", args, "R"), t.app("duccK.im", args,
                                                          "R"),
                      np.dtype(complex))
    l, m = (x - nx // 2) * px, (y - ny // 2) * py
    n = np.sqrt(1 - l * l - m * m)
    if ws:
        ph = -2 * np.pi * f / C * (u[0] * l + u[1] * m - w_ * (n - 1))
        return np.exp(1j * ph) / n
    return np.exp(-2j * np.pi * f / C * (u[0] * l + u[1] * m))


def factor(v, wgt, mask, r, c):
    k = 1.0
    if wgt is not None:
        k = v.rd(wgt, r, c) * k
    if mask is not None:
        k = v.where(v.rd(mask, r, c) != 0, k, 0.0 * k)
    return k


def fake_ducc(v, log):
    m = types.ModuleType("ducc0.wgridder")

    def check(cond, what):
        ok = bool(cond)
        if not ok:
            raise RuntimeError("ducc0: " + what)

    def common(uvw, freq, wgt, mask, nr, nc):
        check(uvw.shape[1] == 3, "uvw shape")
        for a in (wgt, mask):
            if a is not None:
                check(a.ndim == 2, "rank")
                check(a.shape[0] == nr, "rows")
                check(a.shape[1] == nc, "channels")

    def dirty2ms(uvw, freq, dirty, wgt=None, pixsize_x=None, pixsize_y=None,
                 nu=0, nv=0, epsilon=None, do_wstacking=False, nthreads=1,
                 verbosity=0, mask=None):
        nr, nc = uvw.shape[0], freq.shape[0]
        nx, ny = dirty.shape
        common(uvw, freq, wgt, mask, nr, nc)
        log.append(("dirty2ms", epsilon, nthreads, do_wstacking, None))

        def val(r, c):
            s = v.sum(nx, lambda x: v.sum(ny, lambda y: v.rd(dirty, x, y) *
                      kern(v, (v.rd(uvw, r, 0), v.rd(uvw, r, 1)),
                           v.rd(uvw, r, 2), v.rd(freq, c), x, y, nx, ny,
                           pixsize_x, pixsize_y, do_wstacking)))
            return s * factor(v, wgt, mask, r, c)
        return tab(v, (nr, nc), np.result_type(dirty.dtype, np.complex64),
                   val)

    def ms2dirty(uvw, freq, ms, wgt=None, npix_x=None, npix_y=None,
                 pixsize_x=None, pixsize_y=None, nu=0, nv=0, epsilon=None,
                 do_wstacking=False, nthreads=1, verbosity=0, mask=None,
                 double_precision_accumulation=False):
        nr, nc = uvw.shape[0], freq.shape[0]
        common(uvw, freq, wgt, mask, nr, nc)
        check(ms.shape[0] == nr, "ms rows")
        check(ms.shape[1] == nc, "ms channels")
        log.append(("ms2dirty", epsilon, nthreads, do_wstacking,
                    double_precision_accumulation))

        def val(x, y):
            return v.sum(nr, lambda r: v.sum(nc, lambda c: v.re(
                v.rd(ms, r, c) * v.conj(kern(
                    v, (v.rd(uvw, r, 0), v.rd(uvw, r, 1)), v.rd(uvw, r, 2),
                    v.rd(freq, c), x, y, npix_x, npix_y, pixsize_x,
                    pixsize_y, do_wstacking))) *
                factor(v, wgt, mask, r, c)))
        rt = np.float32 if ms.dtype == np.complex64 else np.float64
        return tab(v, (npix_x, npix_y), rt, val)
    m.dirty2ms, m.ms2dirty = dirty2ms, ms2dirty
    top = types.ModuleType("ducc0")
    top.wgridder = m
    v.stub("ducc0", top)
    v.stub("ducc0.wgridder", m)


def tab(v, shape, dt, f):
    """an array given by a formula of the index (not an input)"""
    if not v.symbolic:
        a = np.zeros(shape, dt)
        for idx in np.ndindex(*a.shape):
            a[idx] = f(*idx)
        return a
    a = v.input_fn("ducc", shape, dt, f)
    v.inputs.pop()
    return a


# ------------------------------------------------------------------- set-up
class Setup(object):
    def __init__(self, v, nband, opt, dask):
        dt = np.complex64 if "c" in opt else np.complex128
        self.v, self.nband, self.opt, self.dask = v, nband, opt, dask
        self.log = []
        fake_ducc(v, self.log)
        rows = v.chunks("row", 2 if dask else 1, 1)
        self.rows = rows
        self.nrow = sum(rows[1:], rows[0])
        self.nx, self.ny = v.dim("nx", 2), v.dim("ny", 2)
        # bands: counts per band; dask: one chunk per band
        self.cnt = [v.int("cnt%d" % b, 1, 4 if not v.symbolic else None)
                    for b in range(nband)]
        self.lo = [0]
        for c in self.cnt:
            self.lo.append(self.lo[-1] + c)
        self.nchan = self.lo[-1]
        if "p" in opt:
            # the first bands lie at the end of the frequency axis
            lo = [0]
            for c in self.cnt[::-1]:
                lo.append(lo[-1] + c)
            self.lo = lo[-2::-1] + [self.nchan]
        ft = np.float64
        self.dt = dt
        self.rt = np.float32 if dt == np.complex64 else np.float64
        self.uvw = v.array("uvw", (self.nrow, 3), ft, lo=-500., hi=500.)
        self.freq = v.array("freq", (self.nchan,), ft, lo=1e8, hi=2e9)
        self.idx = v.make("freq_bin_idx", self.lo[:-1], np.int64)
        self.counts = v.make("freq_bin_counts", self.cnt, np.int64)
        self.image = v.array("image", (nband, self.nx, self.ny), self.rt)
        self.vis = v.array("vis", (self.nrow, self.nchan), dt)
        self.wgt = v.array("weights", (self.nrow, self.nchan), self.rt,
                           nonneg=True) if "w" in opt else None
        self.flag = v.array("flag", (self.nrow, self.nchan), np.uint8,
                            lo=0, hi=2) if "f" in opt else None
        self.cell = v.real("cell", 1e-4, 1e-2)
        self.celly = v.real("celly", 1e-4, 1e-2) if "y" in opt else None
        self.ws = "n" not in opt
        self.eps = 1e-6

    def call(self, name, lead):
        v = self.v
        kw = dict(weights=self.wgt, flag=self.flag, celly=self.celly,
                  epsilon=self.eps, do_wstacking=self.ws, nthreads=1)
        if "t" in self.opt:
            kw["nthreads"] = 3
        if "z" in self.opt:
            kw["nthreads"] = 0
        if name != "model" and "d" in self.opt:
            kw["double_accum"] = True
        a = {"uvw": self.uvw, "freq": self.freq, "image": self.image,
             "vis": self.vis, "freq_bin_idx": self.idx,
             "freq_bin_counts": self.counts, "cell": self.cell,
             "nx": self.nx, "ny": self.ny}
        if self.dask:
            fs = self.cnt
            R = self.rows
            one = [1] * self.nband
            ch = {"uvw": (R, None), "freq": (fs,), "image": (one, None, None),
                  "vis": (R, fs), "freq_bin_idx": (one,),
                  "freq_bin_counts": (one,)}
            for k, s in ch.items():
                a[k] = v.dask(a[k], *s)
            for k in ("weights", "flag"):
                if kw[k] is not None:
                    kw[k] = v.dask(kw[k], R, fs)
        f = v.fn(W + (".dask:" if self.dask else {
            "model": ".im2vis:", "dirty": ".vis2im:", "residual":
            ".im2residim:", "hessian": ".hessian:"}[name]) + name)
        out = f(*[a[k] for k in lead], **kw)
        v.ensure("result type", out.dtype == (
            self.dt if name == "model" else self.rt))
        if not v.symbolic:
            out = v.compute(out)
        for what, eps, nt, ws, da in self.log:
            v.ensure("accuracy passed on", eps == self.eps)
            v.ensure("threads passed on", nt == kw["nthreads"] if
                     kw["nthreads"] else nt > 0)
            v.ensure("wstacking passed on", bool(ws) == self.ws)
            if what == "ms2dirty" and "d" in self.opt:
                v.ensure("accumulation passed on", da is True)
        return out

    # ---- specification
    def K(self, r, c, x, y):
        v = self.v
        return kern(v, (v.rd(self.uvw, r, 0), v.rd(self.uvw, r, 1)),
                    v.rd(self.uvw, r, 2), v.rd(self.freq, c), x, y, self.nx,
                    self.ny, self.cell, self.cell if self.celly is None else
                    self.celly, self.ws)

    def F(self, r, c, w=True, m=True):
        return factor(self.v, self.wgt if w else None,
                      self.flag if m else None, r, c)

    def fwd(self, b, r, c, w):
        v = self.v
        s = v.sum(self.nx, lambda x: v.sum(self.ny, lambda y: v.rd(
            self.image, b, x, y) * self.K(r, c, x, y)))
        return s * self.F(r, c, w)

    def adj(self, b, x, y, vis):
        v = self.v
        return v.sum(self.rows, lambda r: v.sum(self.cnt[b], lambda k: v.re(
            vis(r, self.lo[b] + k) * v.conj(self.K(r, self.lo[b] + k, x, y)) *
            self.F(r, self.lo[b] + k))))

    def check_im(self, name, out, val):
        """out (band, nx, ny)"""
        v = self.v
        v.shape_is(name, out, (self.nband, self.nx, self.ny))
        if v.symbolic and self.dask:
            def blocks():
                for bk, blk in sorted(out.blocks_.items()):
                    yield bk, blk
            for bk, blk in blocks():
                v.shape_is("block", blk, (1, self.nx, self.ny))
                v.each((self.nx, self.ny), lambda x, y: v.eq(
                    "%s band %d" % (name, bk[0]), v.rd(blk, 0, x, y),
                    val(bk[0], x, y)))
            return
        for b in range(self.nband):
            v.each((self.nx, self.ny), lambda x, y: v.eq(
                "%s band %d" % (name, b), v.rd(out, b, x, y), val(b, x, y)))


OPTS = ["", "w", "f", "wf", "wfy", "n", "ytd", "wfyn", "c", "wftd", "wfp", "z"]
PAR = [dict(nband=nb, opt=o, dask=d) for nb in (1, 2, 3) for o in OPTS
       for d in (False, True) if not (nb == 3 and o not in ("wf",)) and not
       (nb == 1 and o not in ("wfy", "")) and not (d and "p" in o)]


@P.contract(params=PAR, small=2, cases=24)
def model(v, nband, opt, dask):
    """every channel of band b is predicted from image plane b, with its own
    weights and mask"""
    s = Setup(v, nband, opt, dask)
    out = s.call("model", ["uvw", "freq", "image", "freq_bin_idx",
                           "freq_bin_counts", "cell"])
    v.shape_is("vis", out, (s.nrow, s.nchan))
    if v.symbolic and dask:
        off = [0]
        for r in s.rows:
            off.append(off[-1] + r)
        for (i, b), blk in sorted(out.blocks_.items()):
            v.shape_is("block", blk, (s.rows[i], s.cnt[b]))
            v.each((s.rows[i], s.cnt[b]), lambda r, k: v.eq(
                "model", v.rd(blk, r, k), s.fwd(b, off[i] + r, s.lo[b] + k,
                                                True)))
        return
    for b in range(nband):
        v.each((s.nrow, s.cnt[b]), lambda r, k: v.eq(
            "model band %d" % b, v.rd(out, r, s.lo[b] + k),
            s.fwd(b, r, s.lo[b] + k, True)))


@P.contract(params=PAR, small=2, cases=24)
def dirty(v, nband, opt, dask):
    """image plane b is the adjoint of the channels of band b, and of no
    other; weights and mask are applied once"""
    s = Setup(v, nband, opt, dask)
    out = s.call("dirty", ["uvw", "freq", "vis", "freq_bin_idx",
                           "freq_bin_counts", "nx", "ny", "cell"])
    s.check_im("dirty", out, lambda b, x, y: s.adj(
        b, x, y, lambda r, c: v.rd(s.vis, r, c)))


@P.contract(params=[p for p in PAR if p["opt"] in (
    "", "wf", "wfyn", "ytd", "w", "f", "c", "wftd", "wfp", "z")], small=2, cases=24)
def residual(v, nband, opt, dask):
    """residual = adjoint(vis - model), weights applied once"""
    s = Setup(v, nband, opt, dask)
    out = s.call("residual", ["uvw", "freq", "image", "vis", "freq_bin_idx",
                              "freq_bin_counts", "cell"])
    s.check_im("residual", out, lambda b, x, y: s.adj(
        b, x, y, lambda r, c: v.rd(s.vis, r, c) - s.fwd(b, r, c, False)))


@P.contract(params=[p for p in PAR if p["opt"] in (
    "", "wf", "wfyn", "ytd", "w", "f", "c", "wftd", "wfp", "z")], small=2, cases=24)
def hessian(v, nband, opt, dask):
    """hessian = adjoint(model), weights applied once"""
    s = Setup(v, nband, opt, dask)
    out = s.call("hessian", ["uvw", "freq", "image", "freq_bin_idx",
                             "freq_bin_counts", "cell"])
    s.check_im("hessian", out, lambda b, x, y: s.adj(
        b, x, y, lambda r, c: s.fwd(b, r, c, False)))


@P.contract(symbolic=False, cases=40, params=[dict(dask=False),
                                              dict(dask=True)],
            targets=["ducc0.wgridder (assumed contract, sampled)"])
def real_ducc(v, dask):
    """the installed ducc library meets the contract assumed for it: the four
    operators equal direct Fourier sums to the requested accuracy"""
    r = v.rng
    nb, nrow = int(r.integers(1, 4)), int(r.integers(4, 12))
    cnt = r.integers(1, 4, size=nb)
    lo = np.concatenate([[0], np.cumsum(cnt)])
    nchan, nx, ny = int(lo[-1]), 2 * int(r.integers(8, 12)), 2 * int(
        r.integers(8, 12))
    cell, celly = 2e-3, 3e-3
    uvw = r.normal(size=(nrow, 3)) * np.array([40., 40., 8.])
    freq = np.sort(r.uniform(8e8, 1.2e9, size=nchan))
    img = r.normal(size=(nb, nx, ny))
    vis = r.normal(size=(nrow, nchan)) + 1j * r.normal(size=(nrow, nchan))
    wgt = r.uniform(0.5, 2, size=(nrow, nchan))
    flag = (r.uniform(size=(nrow, nchan)) < .7).astype(np.uint8)
    idx, eps = lo[:-1].copy(), 1e-7
    x, y = np.meshgrid((np.arange(nx) - nx // 2) * cell,
                       (np.arange(ny) - ny // 2) * celly, indexing="ij")
    n = np.sqrt(1 - x**2 - y**2)

    def K(i, c):
        return np.exp(-2j * np.pi * freq[c] / C * (
            uvw[i, 0] * x + uvw[i, 1] * y - uvw[i, 2] * (n - 1))) / n
    ks = {(i, c): K(i, c) for i in range(nrow) for c in range(nchan)}
    band = np.repeat(np.arange(nb), cnt)
    fwd = np.array([[(img[band[c]] * ks[i, c]).sum() for c in range(nchan)]
                    for i in range(nrow)])

    def adj(z):
        out = np.zeros((nb, nx, ny))
        for (i, c), k in ks.items():
            out[band[c]] += (z[i, c] * k.conj()).real
        return out
    want = {"model": fwd * wgt * flag, "dirty": adj(vis * wgt * flag),
            "residual": adj((vis - fwd) * flag * wgt),
            "hessian": adj(fwd * flag * wgt)}
    a = dict(uvw=uvw, freq=freq, image=img, vis=vis, freq_bin_idx=idx,
             freq_bin_counts=cnt, weights=wgt, flag=flag)
    if dask:
        h = nrow // 2
        R = (h, nrow - h)
        one = [1] * nb
        a = dict(uvw=v.dask(uvw, R, None), freq=v.dask(freq, cnt),
                 image=v.dask(img, one, None, None), vis=v.dask(vis, R, cnt),
                 freq_bin_idx=v.dask(idx, one), freq_bin_counts=v.dask(
                     cnt, one), weights=v.dask(wgt, R, cnt),
                 flag=v.dask(flag, R, cnt))
    kw = dict(weights=a["weights"], flag=a["flag"], celly=celly, epsilon=eps)
    W0 = W + (".dask:" if dask else ":")
    fr = (a["freq_bin_idx"], a["freq_bin_counts"])
    got = {
        "model": v.fn(W0 + "model")(a["uvw"], a["freq"], a["image"], *fr,
                                    cell, **kw),
        "dirty": v.fn(W0 + "dirty")(a["uvw"], a["freq"], a["vis"], *fr, nx,
                                    ny, cell, **kw),
        "residual": v.fn(W0 + "residual")(a["uvw"], a["freq"], a["image"],
                                          a["vis"], *fr, cell, **kw),
        "hessian": v.fn(W0 + "hessian")(a["uvw"], a["freq"], a["image"], *fr,
                                        cell, **kw)}
    for k, w in want.items():
        g = v.compute(got[k])
        err = np.linalg.norm(g - w) / max(np.linalg.norm(w), 1e-12)
        v.ensure("%s equals the direct Fourier sum (rel. error %.1e)" % (
            k, err), err < 1e-5)
