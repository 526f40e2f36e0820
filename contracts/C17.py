"""Hogbom CLEAN."""
from pyvc.registry import Prop

P = Prop("C17")
MOD = "africanus.deconv.hogbom.clean:"


def max2(v, a, n, m):
    return v.max(n, lambda x: v.max(m, lambda y: v.rd(a, x, y)))


def min2(v, a, n, m):
    return v.min(n, lambda x: v.min(m, lambda y: v.rd(a, x, y)))


@P.contract()
def find_peak(v):
    """positions and value of the largest and smallest pixel"""
    f = v.fn(MOD + "find_peak")
    n, m = v.dim("nx", 1), v.dim("ny", 1)
    r = v.array("r", (n, m), float)
    mx, my, nx, ny, peak = f(r)
    v.eq("peak", peak, max2(v, r, n, m))
    v.ensure("max in range", v.and_(0 <= mx, mx < n, 0 <= my, my < m))
    v.ensure("min in range", v.and_(0 <= nx, nx < n, 0 <= ny, ny < m))
    v.eq("at max", v.rd(r, mx, my), peak)
    v.eq("at min", v.rd(r, nx, ny), min2(v, r, n, m))


@P.contract()
def build_cleanmap(v):
    """one component is added at one pixel"""
    f = v.fn(MOD + "build_cleanmap")
    n, m = v.dim("nx", 1), v.dim("ny", 1)
    c = v.array("clean", (n, m), float)
    old = c.copy()
    p, q = v.int("p", 0, n), v.int("q", 0, m)
    i, g = v.real("i"), v.real("g")
    v.modifies(c)
    f(c, i, g, p, q)
    v.all_eq("clean", c, (n, m), lambda x, y: v.rd(old, x, y) + v.where(
        v.and_(x == p, y == q), i * g, 0.0))


@P.contract()
def update_residual(v):
    """the psf centred on the component, scaled, is subtracted everywhere"""
    f = v.fn(MOD + "update_residual")
    n = v.dim("n", 1)
    r = v.array("r", (n, n), float)
    old = r.copy()
    psf = v.array("psf", (2 * n, 2 * n), float)
    p, q = v.int("p", 0, n), v.int("q", 0, n)
    i, g = v.real("i"), v.real("g")
    v.modifies(r)
    f(r, i, g, p, q, n, psf)
    v.all_eq("residual", r, (n, n), lambda x, y: v.rd(old, x, y) - i * g *
             v.rd(psf, n - 1 - p + x, n - 1 - q + y))


def peak_contract(v):
    """find_peak by its contract (proved above)"""
    def f(r):
        n, m = r.shape
        mx, my = v.fresh_int(0, n), v.fresh_int(0, m)
        nx, ny = v.fresh_int(0, n), v.fresh_int(0, m)
        frozen = r.copy()
        peak = max2(v, frozen, n, m)
        v.assume(v.rd(frozen, mx, my) == peak)
        v.assume(v.rd(frozen, nx, ny) == min2(v, frozen, n, m))
        return mx, my, nx, ny, peak
    return f


def convolved(v, clean, psf, n, x, y):
    return v.sum(n, lambda p: v.sum(n, lambda q: v.rd(clean, p, q) *
                                    v.rd(psf, n - 1 - p + x, n - 1 - q + y)))


def rule(v, n, dirty, psf, niter):
    """invariant: residual = dirty - clean (*) psf; every local that is an
    image position, the peak, its value or the iteration count is known to
    be so"""
    def alternatives(init):
        k = len(init.arrays)
        for c in range(k):
            for r in range(k):
                if c == r:
                    continue
                preds = [("count", lambda s: s.count <= niter)]
                ni, nr = len(init.ints()), len(init.reals())
                for a in range(ni):
                    preds.append(("pixel", lambda s, a=a: v.and_(
                        0 <= s.ints()[a], s.ints()[a] < n)))
                    preds.append(("counter", lambda s, a=a:
                                  s.ints()[a] == s.count))
                for w in range(nr):
                    preds.append(("peak", lambda s, w=w: s.reals()[w] == max2(
                        v, s.arrays[r], n, n)))
                yield dict(define=[(r, lambda s, x, y, c=c: v.rd(
                    dirty, x, y) - convolved(v, s.arrays[c], psf, n, x, y))],
                    preds=preds)
    return alternatives


@P.contract(params=[dict(opts=o) for o in ("", "t", "n", "tn")])
def hogbom_clean(v, opts):
    """residual = dirty - clean convolved with the psf, for every number of
    iterations; stops at the threshold or after niter iterations"""
    f = v.fn(MOD + "hogbom_clean")
    n = v.dim("n", 1)
    dirty = v.array("dirty", (n, n), float)
    psf = v.array("psf", (2 * n, 2 * n), float)
    gamma = v.real("gamma", 0.01, 0.99)
    kw = dict(gamma=gamma)
    thr, niter = 0.2, 3 * n
    if "t" in opts:
        kw["threshold"] = thr = v.real("threshold", 0, 1)
    if "n" in opts:
        kw["niter"] = niter = v.dim("niter", 0)
    if v.symbolic:
        v.use_contract(MOD + "find_peak", peak_contract(v))
        v.while_rule(rule(v, n, dirty, psf, niter))
    clean, res = f(dirty, psf, **kw)
    v.shape_is("clean", clean, (n, n))
    v.all_eq("residual", res, (n, n), lambda x, y: v.rd(dirty, x, y) -
             convolved(v, clean, psf, n, x, y))
    if v.symbolic:
        cnt = v.loop_count()
        v.ensure("iteration limit", cnt <= niter)
        v.ensure("stopping rule", v.or_(
            cnt == niter, v.abs(max2(v, res, n, n)) <= thr * v.abs(
                max2(v, dirty, n, n))))


@P.contract(params=[dict(case=c) for c in range(3)])
def rejects(v, case):
    """a psf that is not twice the image is refused"""
    f = v.fn(MOD + "hogbom_clean")
    n = v.dim("n", 1)
    dirty = v.array("dirty", (n, n), float)
    k = v.dim("k", 1)
    sh = [(2 * n + k, 2 * n), (2 * n, 2 * n + k), (2 * n - 1, 2 * n - 1)]
    psf = v.array("psf", sh[case], float)
    v.raises("psf size", ValueError, lambda: f(dirty, psf))


@P.contract(params=[dict(opts=o) for o in ("t", "n", "tn", "")],
            symbolic=False, cases=80)
def components(v, opts):
    """bounded: with a point psf and unit gain each iteration removes the
    brightest remaining pixel, niter of them at most, none at or below the
    threshold"""
    import numpy as np
    f = v.fn(MOD + "hogbom_clean")
    n = v.dim("n", 2)
    dirty = v.array("dirty", (n, n), float, lo=0.5, hi=4.0)
    psf = np.zeros((2 * n, 2 * n))
    psf[n - 1, n - 1] = 1.0
    kw = dict(gamma=1.0)
    thr, niter = 0.2, 3 * n
    if "t" in opts:
        kw["threshold"] = thr = v.real("threshold", 0.05, 0.95)
    if "n" in opts:
        kw["niter"] = niter = v.dim("niter", 0)
    clean, res = f(dirty, psf, **kw)
    left = dirty.copy()
    want = np.zeros((n, n))
    for k in range(niter):
        p = np.unravel_index(left.argmax(), left.shape)
        if left[p] <= thr * dirty.max():
            break
        want[p] += left[p]
        left[p] = 0
    v.all_eq("clean", clean, (n, n), lambda x, y: want[x, y])
    v.all_eq("residual", res, (n, n), lambda x, y: left[x, y])


@P.contract(params=[dict(opts=o) for o in ("t", "n", "tn", "")],
            symbolic=False, cases=60)
def history(v, opts):
    """bounded: each iteration moves the gain times the largest residual
    into the clean image, as long as its magnitude exceeds the threshold,
    relative to the magnitude of the first peak"""
    import numpy as np
    f = v.fn(MOD + "hogbom_clean")
    n = v.dim("n", 2)
    top = v.choice([4.0, -0.5])
    dirty = v.array("dirty", (n, n), float, lo=-4.0, hi=top)
    psf = v.array("psf", (2 * n, 2 * n), float, lo=-0.2, hi=0.2)
    psf[n - 1, n - 1] = 1.0
    v.modifies(psf)
    gamma = v.real("gamma", 0.05, 0.95)
    kw = dict(gamma=gamma)
    thr, niter = 0.2, 3 * n
    if "t" in opts:
        kw["threshold"] = thr = v.real("threshold", 0.05, 0.95)
    if "n" in opts:
        kw["niter"] = niter = v.dim("niter", 0)
    clean, res = f(dirty, psf, **kw)
    left = dirty.copy()
    want = np.zeros((n, n))
    for k in range(niter):
        p, q = np.unravel_index(left.argmax(), left.shape)
        peak = left[p, q]
        v.assume(abs(abs(peak) - thr * abs(dirty.max())) > 1e-9)
        if abs(peak) <= thr * abs(dirty.max()):
            break
        want[p, q] += gamma * peak
        left = left - gamma * peak * psf[n - 1 - p:2 * n - 1 - p,
                                         n - 1 - q:2 * n - 1 - q]
    v.all_eq("clean", clean, (n, n), lambda x, y: want[x, y])
    v.all_eq("residual", res, (n, n), lambda x, y: left[x, y])


def gauss(v, amp, x0, y0, sx, sy, th, off, x, y):
    c, s = v.cos(th), v.sin(th)
    s2 = v.sin(2 * th)
    a = c * c / (2 * sx * sx) + s * s / (2 * sy * sy)
    b = -s2 / (4 * sx * sx) + s2 / (4 * sy * sy)
    d = s * s / (2 * sx * sx) + c * c / (2 * sy * sy)
    return off + amp * v.exp(-(a * (x - x0) * (x - x0) + 2 * b * (x - x0) *
                               (y - y0) + d * (y - y0) * (y - y0)))


@P.contract()
def twod_gaussian(v):
    """elliptical Gaussian with the given centre, widths and angle"""
    f = v.fn(MOD + "twod_gaussian")
    n, m = v.dim("n", 1), v.dim("m", 1)
    X, Y = v.array("X", (n, m)), v.array("Y", (n, m))
    amp, off = v.real("amp"), v.real("off")
    x0, y0, th = v.real("x0"), v.real("y0"), v.real("th")
    sx, sy = v.real("sx", 0.5, 4.0), v.real("sy", 0.5, 4.0)
    out = f((X, Y), amp, x0, y0, sx, sy, th, off)
    v.shape_is("g", out, (n * m,))
    v.each((n, m), lambda i, j: v.eq("g", v.rd(out, i * m + j), gauss(
        v, amp, x0, y0, sx, sy, th, off, v.rd(X, i, j), v.rd(Y, i, j))))


@P.contract(symbolic=False, cases=12)
def restore(v):
    """bounded: the restored image is the residual plus the model convolved
    with the beam fitted to the psf"""
    import numpy as np
    import scipy.signal
    f = v.fn(MOD + "restore")
    fit = v.fn(MOD + "fit_2d_gaussian")
    n = 2 * v.dim("n", 4)
    y, x = np.meshgrid(np.arange(2 * n), np.arange(2 * n))
    sx, sy = v.real("sx", 1.2, 2.2), v.real("sy", 1.2, 2.2)
    psf = np.exp(-(x - n) ** 2 / (2 * sx ** 2) - (y - n) ** 2 /
                 (2 * sy ** 2))
    clean = v.array("clean", (n, n))
    res = v.array("res", (n, n))
    keep = psf.copy()
    out, model = f(clean, psf, res)
    v.ensure("psf kept", bool((psf == keep).all()))
    beam = fit(psf)
    v.eq("beam peak", beam.max(), 1.0)
    want = scipy.signal.fftconvolve(clean, beam, mode="same")
    v.all_eq("model", model, (n, n), lambda i, j: want[i, j])
    v.all_eq("restored", out, (n, n), lambda i, j: want[i, j] + res[i, j])
