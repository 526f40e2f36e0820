"""Phase only calibration: normal equations and the Gauss-Newton step."""
from pyvc.registry import Prop
from contracts.C03 import bins, lazy_setup
from contracts.lazy import lazy

P = Prop("C04", [
    "time bins are consecutive, disjoint row ranges starting at the smallest "
    "bin index (what chunkify_rows produces)"])
M = "africanus.calibration.phase_only.phase_only:"


def setup(v, ncorr):
    nt, na, nc = v.dim("nt", 1), v.dim("na", 1), v.dim("nc", 1)
    nd = v.dim("nd", 1)
    base, tbi, cnt, nrow = bins(v, nt)
    a1 = v.array("a1", (nrow,), "i4", lo=0, hi=na)
    a2 = v.array("a2", (nrow,), "i4", lo=0, hi=na)
    jones = v.array("jones", (nt, na, nc, nd, ncorr), complex)
    model = v.array("model", (nrow, nc, nd, ncorr), complex)
    flag = v.array("flag", (nrow, nc, ncorr), bool)
    return nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag


def jac(v, jones, model, t, r, p, q, c, s, i):
    return v.rd(jones, t, p, c, s, i) * v.rd(model, r, c, s, i) * v.conj(
        v.rd(jones, t, q, c, s, i))


def normal(v, S, ncorr, residual, t, a, c, s, i):
    """(J^H J diagonal, J^H r) of antenna a, the sum over the bin's rows"""
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S

    def row(k, what):
        r = v.rd(tbi, t) - base + k
        p, q = v.rd(a1, r), v.rd(a2, r)
        fl = v.or_(*[v.rd(flag, r, c, j) for j in range(ncorr)])
        J = jac(v, jones, model, t, r, p, q, c, s, i)
        if what == "jhj":
            x = v.re(J) * v.re(J) + v.im(J) * v.im(J)
            y = x
        else:
            x = v.conj(v.cplx(0, 1) * J) * v.rd(residual, r, c, i)
            y = v.conj(v.cplx(0, -1) * J) * v.rd(residual, r, c, i)
        return v.where(fl, 0.0, v.where(a == p, x, 0.0) + v.where(
            a == q, y, 0.0))
    n = v.rd(tbi if False else cnt, t)
    return (v.sum(n, lambda k: row(k, "jhj")),
            None if residual is None else v.sum(n, lambda k: row(k, "jhr")))


CORR = [dict(ncorr=1), dict(ncorr=2)]


def check(v, S, ncorr, residual, jhj, jhr):
    nt, na, nc, nd = S[:4]
    sh = (nt, na, nc, nd, ncorr)
    if jhj is not None:
        v.all_eq("jhj", jhj, sh, lambda t, a, c, s, i: normal(
            v, S, ncorr, residual, t, a, c, s, i)[0])
    if jhr is not None:
        v.all_eq("jhr", jhr, sh, lambda t, a, c, s, i: normal(
            v, S, ncorr, residual, t, a, c, s, i)[1])


@P.contract(params=CORR)
def compute_jhj(v, ncorr):
    """diagonal of J^H J summed over the unflagged rows of the time bin in
    which the antenna takes part"""
    S = setup(v, ncorr)
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S
    out = v.fn(M + "compute_jhj")(tbi, cnt, a1, a2, jones, model, flag)
    check(v, S, ncorr, None, out, None)


@P.contract(params=CORR)
def compute_jhr(v, ncorr):
    """J^H r summed over the unflagged rows of the time bin"""
    S = setup(v, ncorr)
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S
    res = v.array("res", (nrow, nc, ncorr), complex)
    out = v.fn(M + "compute_jhr")(tbi, cnt, a1, a2, jones, res, model, flag)
    check(v, S, ncorr, res, None, out)


@P.contract(params=CORR)
def compute_both(v, ncorr):
    """both at once"""
    S = setup(v, ncorr)
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S
    res = v.array("res", (nrow, nc, ncorr), complex)
    jhj, jhr = v.fn(M + "compute_jhj_and_jhr")(
        tbi, cnt, a1, a2, jones, res, model, flag)
    check(v, S, ncorr, res, jhj, jhr)


@P.contract(params=[dict(fn=f, ncorr=n) for f in ("jhj", "jhr")
                    for n in (1, 2)])
def chunked(v, fn, ncorr):
    """lazy versions apply the eager function to matching blocks"""
    nt, na, nc, nd, nrow, tbi, cnt, a1, a2, sizes = lazy_setup(v, fn)
    jn = ("time", "ant", "chan", "dir", "corr")
    js = (nt, na, nc, nd, ncorr)
    args = [("time_bin_indices", tbi, ("time",)),
            ("time_bin_counts", cnt, ("time",)), ("antenna1", a1, ("row",)),
            ("antenna2", a2, ("row",)),
            ("jones", v.array("jones", js, complex), jn)]
    if fn == "jhr":
        args.append(("residual", v.array("res", (nrow, nc, ncorr), complex),
                     ("row", "chan", "corr")))
    args += [("model", v.array("model", (nrow, nc, nd, ncorr), complex),
              ("row", "chan", "dir", "corr")),
             ("flag", v.array("flag", (nrow, nc, ncorr), bool),
              ("row", "chan", "corr"))]
    lazy(v, "africanus.calibration.phase_only.dask:compute_" + fn,
         "africanus.calibration.phase_only:compute_" + fn, args, sizes,
         (jn, js, float if fn == "jhj" else complex), tie={"time": "row"})


@P.contract(params=[dict(ncorr=1), dict(ncorr=2)])
def gauss_newton_step(v, ncorr):
    """one step: phases + Re(jhr / jhj) / 2, with jhj, jhr and the residual
    evaluated for data and model scaled by the square root of the weights;
    the caller's arrays are not touched"""
    f = v.fn(M + "gauss_newton")
    S = setup(v, ncorr)
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S
    vis = v.array("vis", (nrow, nc, ncorr), complex)
    wgt = v.array("wgt", (nrow, nc, ncorr), float, lo=0.25, hi=4.0)
    tol = v.real("tol", 1e-6, 1e-3, bounded=True)
    js = (nt, na, nc, nd, ncorr)
    if v.symbolic:
        J = v.array("JHJ", js, float, lo=0.5)
        R = v.array("JHR", js, complex)
        res = v.array("RES", (nrow, nc, ncorr), complex)

        def white(vis_, model_):
            if vis_ is not None:
                v.all_eq("whitened data", vis_, (nrow, nc, ncorr), lambda
                         r, c, i: v.rd(vis, r, c, i) * v.sqrt(
                             v.rd(wgt, r, c, i)))
            v.all_eq("whitened model", model_, (nrow, nc, nd, ncorr), lambda
                     r, c, s, i: v.rd(model, r, c, s, i) * v.sqrt(
                         v.rd(wgt, r, c, i)))

        def same(name, a, b):
            v.all_eq(name, a, b.shape, lambda *i: v.rd(b, *i))

        def jhj_(t_, c_, p, q, g, m, fl):
            same("jones", g, jones)
            same("flag", fl, flag)
            white(None, m)
            return J

        def jhr_(t_, c_, p, q, g, r, m, fl):
            same("jones", g, jones)
            same("residual", r, res)
            same("flag", fl, flag)
            white(None, m)
            return R

        def res_(t_, c_, p, q, g, d, fl, m):
            same("jones", g, jones)
            same("flag", fl, flag)
            white(d, m)
            return res
        v.use_contract(M + "compute_jhj", jhj_)
        v.use_contract(M + "compute_jhr", jhr_)
        v.use_contract(M + "residual_vis", res_)
    else:
        jones[...] = v.np.exp(1j * v.np.angle(jones)) if hasattr(
            v, "np") else jones
        v.copies = [(n, a, a.copy()) for n, a, c in v.copies]
        w = v.np.sqrt(wgt)
        m, d = model * w[:, :, None], vis * w
        J = v.fn(M + "compute_jhj")(tbi, cnt, a1, a2, jones, m, flag)
        v.assume(bool((J > 1e-6).all()))
        res = v.fn("africanus.calibration.utils:residual_vis")(
            tbi, cnt, a1, a2, jones, d, flag, m)
        R = v.fn(M + "compute_jhr")(tbi, cnt, a1, a2, jones, res, m, flag)
    g, jhj, jhr, k = f(tbi, cnt, a1, a2, jones, vis, flag, model, wgt,
                       tol=tol, maxiter=1)
    v.ensure("iterations", k == 1)
    v.all_eq("jhj", jhj, js, lambda *i: v.rd(J, *i))
    v.all_eq("jhr", jhr, js, lambda *i: v.rd(R, *i))

    def new(*i):
        x = v.rd(jones, *i)
        ph = v.arctan2(v.im(x), v.re(x)) + v.re(v.rd(R, *i)) / (
            2 * v.rd(J, *i))
        return v.cplx(v.cos(ph), v.sin(ph))
    v.all_eq("gains", g, js, new)


@P.contract(params=[dict(ncorr=1), dict(ncorr=2)], symbolic=False, cases=150)
def gauss_newton(v, ncorr):
    """bounded: every number of iterations equals that many single steps,
    stops at the first step below the tolerance"""
    import numpy as np
    f = v.fn(M + "gauss_newton")
    S = setup(v, ncorr)
    nt, na, nc, nd, base, tbi, cnt, nrow, a1, a2, jones, model, flag = S
    jones[...] = np.exp(1j * np.angle(jones))
    flag[...] = False
    model[...] += 3
    v.copies = [(n, a, a.copy()) for n, a, c in v.copies]
    vis = v.array("vis", (nrow, nc, ncorr), complex)
    wgt = v.array("wgt", (nrow, nc, ncorr), float, lo=0.25, hi=4.0)
    w = np.sqrt(wgt)
    m, d = model * w[:, :, None], vis * w
    J = v.fn(M + "compute_jhj")(tbi, cnt, a1, a2, jones, m, flag)
    v.assume(bool((J > 1e-3).all()))
    maxiter = v.dim("maxiter", 1)
    tol = v.real("tol", 1e-3, 0.5)
    g, jhj, jhr, k = f(tbi, cnt, a1, a2, jones, vis, flag, model, wgt,
                       tol=tol, maxiter=maxiter)
    ph = np.angle(jones)
    n = 0
    while n < maxiter:
        G = np.exp(1j * ph)
        res = v.fn("africanus.calibration.utils:residual_vis")(
            tbi, cnt, a1, a2, G, d, flag, m)
        R = v.fn(M + "compute_jhr")(tbi, cnt, a1, a2, G, res, m, flag)
        step = 0.5 * (R / J).real
        ph = np.angle(G) + step
        n += 1
        v.assume(abs(np.abs(step).max() - tol) > 1e-9)
        if np.abs(step).max() <= tol:
            break
    v.ensure("iterations", k == n)
    v.all_eq("gains", g, g.shape, lambda *i: np.exp(1j * ph[i]))
    v.all_eq("jhj", jhj, J.shape, lambda *i: J[i])
    v.all_eq("jhr", jhr, R.shape, lambda *i: R[i])
