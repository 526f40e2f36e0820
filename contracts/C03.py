"""Calibration: applying and removing gains."""
from math import pi
import numpy
from pyvc.registry import Prop
from contracts.lazy import lazy

P = Prop("C03", [
    "time bins are consecutive, disjoint row ranges starting at the smallest "
    "bin index (what chunkify_rows produces)"])
U = "africanus.calibration.utils."
C = 2.99792458e8


def bins(v, nt, base=None):
    """start row (relative to a base) and row count of every time bin"""
    if not v.symbolic:
        base = v.int("base", 0, 40)
        cnt = v.array("cnt", (nt,), "i4", lo=0, hi=4)
        tbi = v.array("tbi", (nt,), "i4", gen=lambda r, s: base +
                      numpy.concatenate([[0], numpy.cumsum(cnt)[:-1]])
                      .astype(int))
        nrow = int(cnt.sum())
        return base, tbi, cnt, nrow
    cnt = v.array("cnt", (nt,), "i4", lo=0)
    tbi = v.array("tbi", (nt,), "i4")
    nrow = v.dim("nrow", 0)
    base = v.rd(tbi, 0)
    v.axiom(tbi, lambda x, i: v.implies(v.and_(0 <= i, i < nt), v.and_(
        base <= x, x + v.rd(cnt, i) <= base + nrow)))
    v.assume_all((nt, nt), lambda a, b: v.implies(a < b, v.rd(tbi, a) +
                 v.rd(cnt, a) <= v.rd(tbi, b)))
    return base, tbi, cnt, nrow


def each_row(v, base, tbi, cnt, f):
    """f(t, row) for every bin t and every row of it"""
    def one(t):
        v.each((v.rd(cnt, t),), lambda k: f(t, v.rd(tbi, t) - base + k))
    v.each((tbi.shape[0],), one)


CORR = {"diag1": ((1,), (1,)), "diag2": ((2,), (2,)),
        "diag": ((2, 2), (2,)), "full": ((2, 2), (2, 2))}


def g(v, jones, t, p, c, s, mode, i, j):
    """element i, j of the gain as a 2x2 matrix"""
    if mode == "full":
        return v.rd(jones, t, p, c, s, i, j)
    return v.rd(jones, t, p, c, s, i) if i == j else 0.0


def corrupted(v, mode, jones, t, p, q, c, s, m, cc):
    """(G_p M G_q^H) at correlation cc, m(*cc) the model"""
    if mode.startswith("diag") and mode != "diag":
        i, = cc
        return v.rd(jones, t, p, c, s, i) * m(i) * v.conj(
            v.rd(jones, t, q, c, s, i))
    i, j = cc
    tot = 0.0
    for a in range(2):
        for b in range(2):
            x, y = g(v, jones, t, p, c, s, mode, i, a), g(
                v, jones, t, q, c, s, mode, j, b)
            if isinstance(x, float) or isinstance(y, float):
                continue
            tot = x * m(a, b) * v.conj(y) + tot
    return tot


def setup(v, mode, nd=None, nonzero=False):
    nt, na, nc = v.dim("nt", 1), v.dim("na", 1), v.dim("nc")
    nd = v.dim("nd", 0) if nd is None else nd
    base, tbi, cnt, nrow = bins(v, nt)
    vc, jc = CORR[mode]
    a1 = v.array("a1", (nrow,), "i4", lo=0, hi=na)
    a2 = v.array("a2", (nrow,), "i4", lo=0, hi=na)
    jones = v.array("jones", (nt, na, nc, nd) + jc, complex,
                    nonzero=nonzero)
    tb0 = tbi.copy()
    return nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc


MODES = [dict(mode=m) for m in CORR]


@P.contract(params=MODES)
def corrupt_vis(v, mode):
    """V = sum over directions of G_p M G_q^H with the gains of the row's
    time bin"""
    f = v.fn(U + "corrupt_vis:corrupt_vis")
    nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc = setup(
        v, mode)
    model = v.array("model", (nrow, nc, nd) + vc, complex)
    out = f(tbi, cnt, a1, a2, jones, model)
    v.shape_is("vis", out, (nrow, nc) + vc)
    each_row(v, base, tb0, cnt, lambda t, r: v.each((nc,) + vc, lambda c, *i:
             v.eq("vis", v.rd(out, r, c, *i), v.sum(nd, lambda s: corrupted(
                 v, mode, jones, t, v.rd(a1, r), v.rd(a2, r), c, s,
                 lambda *k: v.rd(model, r, c, s, *k), i)))))


def flagged(v, flag, r, c, vc):
    idx = [()]
    for n in vc:
        idx = [i + (k,) for i in idx for k in range(n)]
    return v.or_(*[v.rd(flag, r, c, *i) for i in idx])


def regular(v, mode, jones, nt, na, nc):
    """gains are invertible (direction 0)"""
    if not v.symbolic:
        if mode == "full":
            jones[..., 0, 0] += 4
            jones[..., 1, 1] += 4
        v.copies = [(n, a, a.copy()) for n, a, c in v.copies]
        return


def det_nonzero(v, jones, t, p, c):
    e = [[v.rd(jones, t, p, c, 0, i, j) for j in range(2)] for i in range(2)]
    d = e[0][0] * e[1][1] - e[0][1] * e[1][0]
    return v.re(d) * v.re(d) + v.im(d) * v.im(d) > 0


@P.contract(params=MODES)
def correct_vis(v, mode):
    """corrupting the corrected visibilities gives the visibilities back;
    flagged ones are zero"""
    f = v.fn(U + "correct_vis:correct_vis")
    nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc = setup(
        v, mode, nd=1, nonzero=mode != "full")
    regular(v, mode, jones, nt, na, nc)
    vis = v.array("vis", (nrow, nc) + vc, complex)
    flag = v.array("flag", (nrow, nc) + vc, bool)
    out = f(tbi, cnt, a1, a2, jones, vis, flag)
    v.shape_is("corrected", out, (nrow, nc) + vc)

    def one(t, r):
        def each(c, *i):
            fl = flagged(v, flag, r, c, vc)
            if mode == "full":
                v.assume(det_nonzero(v, jones, t, v.rd(a1, r), c))
                v.assume(det_nonzero(v, jones, t, v.rd(a2, r), c))
            v.eq("flagged", v.where(fl, v.rd(out, r, c, *i), 0.0), 0.0)
            v.eq("inverse", v.where(fl, 0.0, corrupted(
                v, mode, jones, t, v.rd(a1, r), v.rd(a2, r), c, 0,
                lambda *k: v.rd(out, r, c, *k), i)), v.where(
                    fl, 0.0, v.rd(vis, r, c, *i)))
        v.each((nc,) + vc, each)
    each_row(v, base, tb0, cnt, one)


@P.contract(params=MODES)
def correct_dd(v, mode):
    """direction dependent gains cannot be corrected for"""
    f = v.fn(U + "correct_vis:correct_vis")
    nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc = setup(
        v, mode, nd=v.dim("nd", 2))
    vis = v.array("vis", (nrow, nc) + vc, complex)
    flag = v.array("flag", (nrow, nc) + vc, bool)
    v.raises("directions", ValueError, lambda: f(
        tbi, cnt, a1, a2, jones, vis, flag))


@P.contract(params=MODES)
def residual_vis(v, mode):
    """R = V - sum over directions of G_p M G_q^H, zero where flagged"""
    f = v.fn(U + "residual_vis:residual_vis")
    nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc = setup(
        v, mode)
    vis = v.array("vis", (nrow, nc) + vc, complex)
    flag = v.array("flag", (nrow, nc) + vc, bool)
    model = v.array("model", (nrow, nc, nd) + vc, complex)
    out = f(tbi, cnt, a1, a2, jones, vis, flag, model)
    v.shape_is("residual", out, (nrow, nc) + vc)
    each_row(v, base, tb0, cnt, lambda t, r: v.each((nc,) + vc, lambda c, *i:
             v.eq("residual", v.rd(out, r, c, *i), v.where(
                 flagged(v, flag, r, c, vc), 0.0, v.rd(vis, r, c, *i) - v.sum(
                     nd, lambda s: corrupted(
                         v, mode, jones, t, v.rd(a1, r), v.rd(a2, r), c, s,
                         lambda *k: v.rd(model, r, c, s, *k), i))))))


def kernel(v, lm, uvw, freq, t, s, r, c):
    l, m = v.rd(lm, t, s, 0), v.rd(lm, t, s, 1)
    n = v.sqrt(1 - l * l - m * m)
    ph = (-2 * pi / C) * v.rd(freq, c) * (
        v.rd(uvw, r, 0) * l + v.rd(uvw, r, 1) * m + v.rd(uvw, r, 2) * (n - 1))
    return v.cplx(v.cos(ph), v.sin(ph)) / n


@P.contract(params=MODES)
def compute_and_corrupt_vis(v, mode):
    """V = sum over directions of G_p (M K / n) G_q^H, K the phase delay of
    the direction at the row's time"""
    f = v.fn(U + "compute_and_corrupt_vis:compute_and_corrupt_vis")
    nt, na, nc, nd, base, tbi, tb0, cnt, nrow, a1, a2, jones, vc = setup(
        v, mode)
    model = v.array("model", (nt, nc, nd) + vc, complex)
    uvw = v.array("uvw", (nrow, 3), float)
    freq = v.array("freq", (nc,), float, lo=1e6, hi=1e7)
    lm = v.array("lm", (nt, nd, 2), float, lo=-0.6, hi=0.6)
    out = f(tbi, cnt, a1, a2, jones, model, uvw, freq, lm)
    v.shape_is("vis", out, (nrow, nc) + vc)
    each_row(v, base, tb0, cnt, lambda t, r: v.each((nc,) + vc, lambda c, *i:
             v.eq("vis", v.rd(out, r, c, *i), v.sum(nd, lambda s: corrupted(
                 v, mode, jones, t, v.rd(a1, r), v.rd(a2, r), c, s,
                 lambda *k: v.rd(model, t, c, s, *k) * kernel(
                     v, lm, uvw, freq, t, s, r, c), i)))))


# ---- lazy versions: every chunk boundary coincides with a time boundary
def lazy_setup(v, mode):
    ct, cc = v.chunks("t", 2, 1), v.chunks("c", 2, 1)
    nt, nc = ct[0] + ct[1], cc[0] + cc[1]
    na, nd = v.dim("na", 1), v.dim("nd", 1)
    if v.symbolic:
        cr = v.chunks("r", 2, 1)
        nrow = cr[0] + cr[1]
        tbi = v.array("tbi", (nt,), "i4")
        cnt = v.array("cnt", (nt,), "i4", lo=0)
    else:
        base, tbi, cnt, nrow = bins(v, nt)
        a = int(cnt[:ct[0]].sum())
        cr = [a, nrow - a]
        v.assume(cr[0] > 0 and cr[1] > 0)
    a1 = v.array("a1", (nrow,), "i4", lo=0, hi=na)
    a2 = v.array("a2", (nrow,), "i4", lo=0, hi=na)
    if mode == "correct":
        nd = 1
    sizes = {"time": ct, "row": cr, "chan": cc}
    return nt, na, nc, nd, nrow, tbi, cnt, a1, a2, sizes


def cn(mode):
    vc, jc = CORR[mode]
    return tuple("i%d" % k for k in range(len(vc))), tuple(
        "j%d" % k for k in range(len(jc)))


@P.contract(params=[dict(fn=f, mode=m) for f in (
    "corrupt_vis", "correct_vis", "residual_vis", "compute_and_corrupt_vis")
    for m in CORR])
def chunked(v, fn, mode):
    """lazy versions apply the eager function to matching blocks"""
    nt, na, nc, nd, nrow, tbi, cnt, a1, a2, sizes = lazy_setup(
        v, "correct" if fn == "correct_vis" else fn)
    vc, jc = CORR[mode]
    vn, jn = cn(mode)
    jones = v.array("jones", (nt, na, nc, nd) + jc, complex, nonzero=True)
    if not v.symbolic and mode == "full":
        jones[..., 0, 0] += 4
        jones[..., 1, 1] += 4
        v.copies = [(n, a, a.copy()) for n, a, c in v.copies]
    args = [("time_bin_indices", tbi, ("time",)),
            ("time_bin_counts", cnt, ("time",)), ("antenna1", a1, ("row",)),
            ("antenna2", a2, ("row",)),
            ("jones", jones, ("time", "ant", "chan", "dir") + jn)]
    if fn in ("correct_vis", "residual_vis"):
        args.append(("vis", v.array("vis", (nrow, nc) + vc, complex),
                     ("row", "chan") + vn))
        args.append(("flag", v.array("flag", (nrow, nc) + vc, bool),
                     ("row", "chan") + vn))
    if fn in ("corrupt_vis", "residual_vis"):
        args.append(("model", v.array("model", (nrow, nc, nd) + vc, complex),
                     ("row", "chan", "dir") + vn))
    if fn == "compute_and_corrupt_vis":
        args.append(("model", v.array("model", (nt, nc, nd) + vc, complex),
                     ("time", "chan", "dir") + vn))
        args.append(("uvw", v.array("uvw", (nrow, 3), float),
                     ("row", "three")))
        args.append(("freq", v.array("freq", (nc,), float, lo=1e6, hi=1e7),
                     ("chan",)))
        args.append(("lm", v.array("lm", (nt, nd, 2), float, lo=-0.6,
                                   hi=0.6), ("time", "dir", "two")))
    lazy(v, U + "dask:" + fn, "africanus.calibration.utils:" + fn, args,
         sizes, (("row", "chan") + vn, (nrow, nc) + vc, complex),
         tie={"time": "row"})


@P.contract(params=[dict(nv=a, nj=b, kind=k) for a in (2, 3, 4, 5, 6)
                    for b in (4, 5, 6, 7) for k in ("vis", "model", "x")])
def check_type(v, nv, nj, kind):
    """mode from the ranks: 0 diagonal/diagonal, 1 diagonal/full, 2 full;
    every other combination is refused"""
    f = v.fn(U + "utils:check_type")
    vis = v.array("vis", tuple(v.dim("v%d" % k) for k in range(nv)), complex)
    jones = v.array("jones", tuple(v.dim("j%d" % k) for k in range(nj)),
                    complex)
    off = 1 if kind == "model" else 0
    want = {(3 + off, 5): 0, (4 + off, 5): 1, (4 + off, 6): 2}.get((nv, nj))
    if kind == "x":
        want = None
    if want is None:
        v.raises("refused", (RuntimeError, ValueError),
                 lambda: f(jones, vis, vis_type=kind))
    else:
        v.ensure("mode", f(jones, vis, vis_type=kind) == want)


@P.contract(symbolic=False, cases=150, small=7)
def chunkify_rows(v):
    """bounded: bins are the runs of equal time, chunks hold whole bins"""
    f = v.fn(U + "utils:chunkify_rows")
    nt, per = v.dim("nt", 1), v.dim("per", 1)
    cnt = v.array("cnt", (nt,), "i4", lo=1, hi=4)
    time = numpy.repeat(5.0 + numpy.arange(nt) * 1.5, cnt)
    rows, idx, counts = f(time, per)
    v.ensure("counts", list(counts) == list(cnt))
    v.ensure("starts", list(idx) == [int(cnt[:k].sum()) for k in range(nt)])
    v.ensure("row chunks", list(rows) == [
        int(cnt[k:k + per].sum()) for k in range(0, nt, per)])
