"""Image regions: convex hulls, boxes, masks, extraction and stitching."""
import numpy as np

from pyvc.registry import Prop

P = Prop("C20", [
    "scipy.spatial.ConvexHull returns the extreme points in anti-clockwise "
    "order (in the proofs the vertices are given in that order)",
    "masks hold every pixel at most once"])
G = "africanus.linalg.geometry"


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


# ------------------------------------------------------------------ proofs

class HullStub(object):
    def __init__(self, n):
        self.vertices = np.arange(n)


def polygon(v, cls, n, pre="", lo=None):
    """an instance around n symbolic corners, anti-clockwise"""
    pts = [(v.int("%sx%d" % (pre, i), -9, 9),
            v.int("%sy%d" % (pre, i), -9, 9)) for i in range(n)]
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        for k in range(n):
            if k != i and k != (i + 1) % n:
                v.assume(cross(a, b, pts[k]) > 0)
    h = cls.__new__(cls)
    h._vertices = v.make(pre + "vertices", [list(p) for p in pts], int)
    h._hull = HullStub(n)
    h._name = "stub"
    return h, pts


@P.contract(params=[dict(n=3), dict(n=4)])
def hull_contains(v, n):
    """a pixel belongs to the hull exactly when it lies on or to the inner
    side of every edge"""
    m = v.module(G)
    h, pts = polygon(v, m.BoundingConvexHull, n)
    p = (v.int("px", -12, 12), v.int("py", -12, 12))
    want = v.and_(*[cross(pts[i], pts[(i + 1) % n], p) >= 0
                    for i in range(n)])
    v.eq("member", h.__contains__(p), want)


@P.contract(params=[dict(n=3), dict(n=4)])
def hull_edges(v, n):
    """corners clockwise, edges between consecutive corners, normals
    perpendicular to the edges"""
    m = v.module(G)
    h, pts = polygon(v, m.BoundingConvexHull, n)
    cw = pts[::-1]
    v.all_eq("corners", h.corners, (n, 2), lambda i, k: pick(
        v, cw, i, k))
    v.all_eq("edges", h.edges, (n, 2, 2), lambda i, e, k: pick(
        v, [list(cw[j]) + list(cw[(j + 1) % n]) for j in range(n)], i,
        2 * e + k))
    v.all_eq("midpoints", h.edge_midpoints, (n, 2), lambda i, k: (
        pick(v, cw, i, k) + pick(v, cw[1:] + cw[:1], i, k)) * 0.5)
    ln = [(-(cw[(j + 1) % n][1] - cw[j][1]), cw[(j + 1) % n][0] - cw[j][0])
          for j in range(n)]
    v.all_eq("left normals", h.lnormals, (n, 2),
             lambda i, k: pick(v, ln, i, k))
    v.all_eq("right normals", h.rnormals, (n, 2),
             lambda i, k: -pick(v, ln, i, k))


def pick(v, rows, i, k):
    out = 0
    for a, row in enumerate(rows):
        for b, x in enumerate(row):
            out = v.where(v.and_(i == a, k == b), x, out)
    return out


def box(v, cls, pre=""):
    xl, yl = v.int(pre + "xl", -9, 9), v.int(pre + "yl", -9, 9)
    w, h = v.int(pre + "w", 1, 12), v.int(pre + "h", 1, 12)
    xu, yu = xl + w, yl + h
    b = cls.__new__(cls)
    b._vertices = v.make(pre + "vertices",
                         [[xl, yl], [xu, yl], [xu, yu], [xl, yu]], int)
    b._hull = HullStub(4)
    b._name = "stub"
    b._BoundingBox__xnpx, b._BoundingBox__ynpx = w + 1, h + 1
    b._mask = "the mask"
    return b, (xl, xu, yl, yu)


@P.contract()
def box_contains(v):
    """a pixel belongs to the box exactly when it lies within its limits"""
    m = v.module(G)
    b, (xl, xu, yl, yu) = box(v, m.BoundingBox)
    x, y = v.int("px", -12, 20), v.int("py", -12, 20)
    v.eq("member", b.__contains__((x, y)),
         v.and_(xl <= x, x <= xu, yl <= y, y <= yu))


@P.contract()
def box_area(v):
    """the area is the number of pixels, the circumference the number of
    pixels along the four sides"""
    m = v.module(G)
    b, (xl, xu, yl, yu) = box(v, m.BoundingBox)
    nx, ny = xu - xl + 1, yu - yl + 1
    v.eq("area", b.area, nx * ny)
    v.eq("circumference", b.circumference, 2 * (nx + ny))
    v.eq("pixels x", b.box_npx[0], nx)
    v.eq("pixels y", b.box_npx[1], ny)


def made(v, m, call):
    """the limits and options of the boxes a factory makes"""
    calls = []
    init = m.BoundingBox.__init__

    def record(self, xl, xu, yl, yu, name="unnamed", mask=None, **kw):
        calls.append((xl, xu, yl, yu, name, mask, kw))

    m.BoundingBox.__init__ = record
    try:
        call()
    finally:
        m.BoundingBox.__init__ = init
    return calls


@P.contract(params=[dict(square=s, odd=o, kind=k) for s in (False, True)
                    for o in (False, True) for k in ("box", 3)
                    if not (s and o and k == 3)])
def bounding_box(v, square, odd, kind):
    """contains the hull; as small as possible; square and odd on request"""
    m = v.module(G)
    if kind == "box":
        h, (x0, x1, y0, y1) = box(v, m.BoundingBox)
    else:
        h, pts = polygon(v, m.BoundingConvexHull, kind)
        h._mask = "the mask"
        x0, x1 = low(v, [p[0] for p in pts]), high(v, [p[0] for p in pts])
        y0, y1 = low(v, [p[1] for p in pts]), high(v, [p[1] for p in pts])
    c = made(v, m, lambda: m.BoundingBoxFactory.AxisAlignedBoundingBox(
        h, square=square, enforce_odd=odd, check_mask_outofbounds=False))
    v.ensure("one box", len(c) == 1)
    xl, xu, yl, yu, name, mask, kw = c[0]
    v.ensure("name, mask and options are passed on", name == "stub" and
             mask == "the mask" and kw == {"check_mask_outofbounds": False})
    v.ensure("contains the hull", v.and_(xl <= x0, x1 <= xu, yl <= y0,
                                         y1 <= yu))
    nx, ny = x1 - x0 + 1, y1 - y0 + 1
    if square:
        nx = ny = v.where(nx > ny, nx, ny)
    if odd:
        nx = nx + 1 - nx % 2
        ny = ny + 1 - ny % 2
    v.eq("width", xu - xl + 1, nx)
    v.eq("height", yu - yl + 1, ny)


@P.contract(params=[dict(kind=k) for k in (3, 4)], symbolic=False, cases=150)
def bounding_box_odd(v, kind):
    """bounded: the same, square and odd"""
    bounding_box(v, True, True, kind)


def low(v, xs):
    r = xs[0]
    for x in xs[1:]:
        r = v.where(x < r, x, r)
    return r


def high(v, xs):
    r = xs[0]
    for x in xs[1:]:
        r = v.where(x > r, x, r)
    return r


@P.contract()
def pad_box(v):
    """the requested size, containing the box, centred to within a pixel"""
    m = v.module(G)
    b, (x0, x1, y0, y1) = box(v, m.BoundingBox)
    dx, dy = v.int("dx", 0, 9), v.int("dy", 0, 9)
    nx, ny = x1 - x0 + 1 + dx, y1 - y0 + 1 + dy
    c = made(v, m, lambda: m.BoundingBoxFactory.PadBox(b, nx, ny))
    v.ensure("one box", len(c) == 1)
    xl, xu, yl, yu, name, mask, kw = c[0]
    v.ensure("name and mask", name == "stub" and mask == "the mask")
    v.eq("width", xu - xl + 1, nx)
    v.eq("height", yu - yl + 1, ny)
    v.ensure("contains the box", v.and_(xl <= x0, x1 <= xu, yl <= y0,
                                        y1 <= yu))
    for n, lo, hi in (("x", x0 - xl, xu - x1), ("y", y0 - yl, yu - y1)):
        v.ensure("centred " + n, v.and_(lo - hi <= 1, hi - lo <= 1))


@P.contract(params=[dict(n=n) for n in (1, 2, 3, 4)])
def split_box(v, n):
    """n by n boxes, row by row, that partition the box into parts of equal
    size to within a pixel"""
    m = v.module(G)
    b, (x0, x1, y0, y1) = box(v, m.BoundingBox)
    v.assume(v.and_(x1 - x0 + 1 >= 2 * n, y1 - y0 + 1 >= 2 * n))
    c = made(v, m, lambda: m.BoundingBoxFactory.SplitBox(b, n))
    v.ensure("number of boxes", len(c) == n * n)
    for j in range(n):
        for i in range(n):
            xl, xu, yl, yu, name, mask, kw = c[j * n + i]
            v.ensure("name and mask", name == "stub" and mask == "the mask")
            v.ensure("not empty", v.and_(xl < xu, yl < yu))
            v.eq("left", xl, x0 if i == 0 else c[j * n + i - 1][1] + 1)
            v.eq("bottom", yl, y0 if j == 0 else c[(j - 1) * n + i][3] + 1)
            if i == n - 1:
                v.eq("right end", xu, x1)
            if j == n - 1:
                v.eq("top end", yu, y1)
            w, h = xu - xl + 1, yu - yl + 1
            v.ensure("equal widths", v.and_(
                n * w >= x1 - x0 + 1 - n, n * w <= x1 - x0 + 1 + n))
            v.ensure("equal heights", v.and_(
                n * h >= y1 - y0 + 1 - n, n * h <= y1 - y0 + 1 + n))


@P.contract(params=[dict(a=3, b="box"), dict(a=3, b=3), dict(a=3, b=4)],
            symbolic=False, cases=400)
def overlap_hulls(v, a, b):
    """bounded: the same for general hulls"""
    overlap(v, a, b)


@P.contract(params=[dict(a="box", b="box")])
def overlap(v, a, b):
    """two hulls are apart exactly when along the normal of some edge they
    are separated by more than the given distance"""
    m = v.module(G)
    hulls, corners = [], []
    for pre, k in (("a", a), ("b", b)):
        if k == "box":
            h, (x0, x1, y0, y1) = box(v, m.BoundingBox, pre)
            c = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        else:
            h, c = polygon(v, m.BoundingConvexHull, k, pre)
        hulls.append(h)
        corners.append(c)
    sep = v.real("sep", positive=True)
    apart = []
    for c in corners:
        for i in range(len(c)):
            p, q = c[i], c[(i + 1) % len(c)]
            e = (q[0] - p[0], q[1] - p[1])
            ln = v.sqrt(e[0] * e[0] + e[1] * e[1])
            pr = [[x[1] * e[0] - x[0] * e[1] for x in cs] for cs in corners]
            gap = [low(v, pr[1]) - high(v, pr[0]),
                   low(v, pr[0]) - high(v, pr[1])]
            apart += [g > sep * ln for g in gap]
    v.eq("overlap", hulls[0].overlaps_with(hulls[1], sep),
         v.not_(v.or_(*apart)))


# ------------------------------------------------- bounded: masks and data

def points(v, lo=-5, hi=8):
    n = v.int("npoints", 3, 7)
    pts = [(v.int("x", lo, hi), v.int("y", lo, hi)) for _ in range(n)]
    v.assume(any(cross(pts[0], q, r) for q in pts for r in pts))
    return pts


def inside(pts, p):
    """p is no further out than the points in any direction joining two"""
    for a in pts:
        for b in pts:
            if a != b and all(cross(a, b, q) >= 0 for q in pts) and \
                    cross(a, b, p) < 0:
                return False
    return True


def lattice(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return [(x, y) for x in range(min(xs), max(xs) + 1)
            for y in range(min(ys), max(ys) + 1)]


def tuples(mask):
    return sorted((int(a), int(b)) for a, b in mask)


@P.contract(symbolic=False, cases=150)
def hull(v):
    """bounded: corners are the extreme points, clockwise; the sparse mask
    holds exactly the pixels within; the filled mask their weights"""
    m = v.module(G)
    pts = points(v)
    h = m.BoundingConvexHull([list(p) for p in pts], name="n")
    c = [tuple(int(t) for t in p) for p in h.corners]
    for p in c:
        v.ensure("corner is a point", p in pts)
    v.ensure("clockwise", all(
        cross(c[i - 2], c[i - 1], c[i]) < 0 for i in range(len(c))))
    v.ensure("all points within", all(
        cross(c[i - 1], c[i], p) <= 0 for p in pts
        for i in range(len(c))))
    for p in lattice(pts):
        v.eq("contains", bool(p in h), inside(pts, p))
    want = sorted((y, x) for x, y in lattice(pts) if inside(pts, (x, y)))
    v.ensure("sparse mask", tuples(h.sparse_mask) == want)
    v.ensure("weights", list(h.sprase_mask_weights) == [1.0] * len(want))
    filled(v, h, pts, dict.fromkeys(want, 1.0))
    v.ensure("name", h.name == "n")
    # a subset of the pixels, some of them outside
    some = [p for p in want if v.int("keep", 0, 1)] + [(99, 99)]
    h.sparse_mask = some
    v.ensure("assigned mask", tuples(h.sparse_mask) == sorted(some[:-1]))
    v.ensure("assigned weights", len(h.sprase_mask_weights) == len(some) - 1)
    filled(v, h, pts, dict.fromkeys(some[:-1], 1.0))
    h.invalidate_cached_masks()
    v.ensure("reset mask", tuples(h.sparse_mask) == want)
    filled(v, h, pts, dict.fromkeys(want, 1.0))
    v.raises("not a list", TypeError, lambda: setattr(
        h, "sparse_mask", "no mask"))
    v.raises("not pairs", TypeError, lambda: setattr(
        h, "sparse_mask", [(1, 2, 3)]))


def filled(v, h, pts, weights):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    a = h.mask
    v.ensure("filled mask shape", a.shape == (
        max(ys) - min(ys) + 1, max(xs) - min(xs) + 1))
    for x, y in lattice(pts):
        v.eq("filled mask", float(a[y - min(ys), x - min(xs)]),
             weights.get((y, x), 0.0))


def a_box(v, m, **kw):
    xl, yl = v.int("xl", -5, 5), v.int("yl", -5, 5)
    xu, yu = xl + v.int("w", 1, 6), yl + v.int("h", 1, 6)
    return m.BoundingBox(xl, xu, yl, yu, **kw), (xl, xu, yl, yu)


def pixels(lim):
    return [(y, x) for y in range(lim[2], lim[3] + 1)
            for x in range(lim[0], lim[1] + 1)]


@P.contract(symbolic=False, cases=80)
def boxes(v):
    """bounded: a box holds all its pixels; a given mask is cut to the box"""
    m = v.module(G)
    b, lim = a_box(v, m)
    pts = [(lim[0], lim[2]), (lim[1], lim[3])]
    v.ensure("all pixels", tuples(b.sparse_mask) == sorted(pixels(lim)))
    filled(v, b, pts, dict.fromkeys(pixels(lim), 1.0))
    some = [p for p in pixels((lim[0] - 1, lim[1] + 1, lim[2] - 1,
                               lim[3] + 1)) if v.int("keep", 0, 1)]
    if v.int("none", 0, 4) == 0:
        some = []
    kept = [p for p in some if p in pixels(lim)]
    how = v.int("how", 0, 2)
    if how == 0:
        b.sparse_mask = some
    elif how == 1:
        b.sparse_mask = np.array(some, int).reshape(len(some), 2)
    else:
        b = m.BoundingBox(*lim, mask=some)
    v.ensure("mask cut to the box", tuples(b.sparse_mask) == sorted(kept))
    v.ensure("weights", list(b.sprase_mask_weights) == [1.0] * len(kept))
    filled(v, b, pts, dict.fromkeys(kept, 1.0))
    v.raises("fractional limits", ValueError, lambda: m.BoundingBox(
        0.5, 3, 1, 2))
    # boxes made from boxes keep the mask and the name
    p = m.BoundingBoxFactory.PadBox(b, lim[1] - lim[0] + 4,
                                    lim[3] - lim[2] + 3)
    v.ensure("padded mask", tuples(p.sparse_mask) == sorted(kept))
    v.eq("padded weight", float(p.mask.sum()), float(len(kept)))
    v.raises("too small", ValueError, lambda: m.BoundingBoxFactory.PadBox(
        b, lim[1] - lim[0], lim[3] - lim[2] + 1))
    v.raises("no box", TypeError, lambda: m.BoundingBoxFactory.PadBox(
        "box", 1, 1))
    v.raises("no box", TypeError, lambda: m.BoundingBoxFactory.SplitBox(
        "box", 1))
    v.raises("no count", ValueError, lambda: m.BoundingBoxFactory.SplitBox(
        b, 0))
    v.raises("no hull", TypeError,
             lambda: m.BoundingBoxFactory.AxisAlignedBoundingBox("box"))


@P.contract(symbolic=False, cases=60)
def split_masks(v):
    """bounded: the masks of the parts of a box partition its mask"""
    m = v.module(G)
    xl, yl = v.int("xl", -5, 5), v.int("yl", -5, 5)
    n = v.int("n", 1, 4)
    lim = (xl, xl + v.int("w", 2 * n, 4 * n + 3) - 1,
           yl, yl + v.int("h", 2 * n, 4 * n + 3) - 1)
    some = [p for p in pixels(lim) if v.int("keep", 0, 3)]
    b = m.BoundingBox(*lim, name="b", mask=some)
    parts = m.BoundingBoxFactory.SplitBox(b, n)
    v.eq("parts", len(parts), n * n)
    got = sum([tuples(p.sparse_mask) for p in parts], [])
    v.ensure("partition", sorted(got) == sorted(some))
    v.eq("area", float(sum(p.area for p in parts)), float(b.area))
    v.ensure("names", all(p.name == "b" for p in parts))


@P.contract(symbolic=False, cases=150)
def extraction(v):
    """bounded: the pixels of the region, weighted by its mask; oob_value
    where the image or the mask does not reach"""
    m = v.module(G)
    ny, nx = v.int("ny", 3, 9), v.int("nx", 3, 9)
    axes = v.choice([(0, 1), (1, 2), (2, 3), (1, 0), (2, 1), (0, 2)])
    shape = [2] * (max(axes) + 1)
    lo, hi = sorted(axes)
    shape[lo], shape[hi] = ny, nx
    cube = v.array("cube", tuple(shape), v.choice([float, complex]))
    before = cube.copy()
    if v.int("hull", 0, 1):
        pts = points(v, -6, 12)
        h = m.BoundingConvexHull([list(p) for p in pts])
        lim = (min(p[0] for p in pts), max(p[0] for p in pts),
               min(p[1] for p in pts), max(p[1] for p in pts))
    else:
        xl, yl = v.int("xl", -8, 10), v.int("yl", -8, 10)
        lim = (xl, xl + v.int("w", 1, 8), yl, yl + v.int("h", 1, 8))
        h = m.BoundingBox(*lim)
        if v.int("weighted", 0, 1):
            h._mask_weights[...] = v.array("weights", (len(
                h._mask_weights),), float, lo=0.1, hi=1)
    mask = h.mask.copy()
    oob = v.choice([0, 0, np.nan, 7.5, -1])
    if lim[1] < 0 or lim[3] < 0 or lim[0] >= nx or lim[2] >= ny:
        v.raises("outside", ValueError, lambda: m.BoundingConvexHull.
                 regional_data(h, cube, axes=axes, oob_value=oob))
        return
    out, win = m.BoundingConvexHull.regional_data(h, cube, axes=axes,
                                                  oob_value=oob)
    v.ensure("window", [int(t) for t in win] == list(lim))
    want_shape = list(shape)
    want_shape[lo], want_shape[hi] = lim[3] - lim[2] + 1, lim[1] - lim[0] + 1
    v.ensure("shape", out.shape == tuple(want_shape))
    for idx in np.ndindex(*want_shape):
        y, x = idx[lo] + lim[2], idx[hi] + lim[0]
        w = mask[idx[lo], idx[hi]]
        if 0 <= y < ny and 0 <= x < nx and w != 0:
            src = list(idx)
            src[lo], src[hi] = y, x
            want = before[tuple(src)] * w
        else:
            want = oob
        v.ensure("value", bool(np.isclose(out[idx], want, rtol=1e-12,
                                          atol=1e-12, equal_nan=True)))
    v.ensure("the image is not changed", bool((cube == before).all()))
    v.ensure("the mask is not changed", bool((h.mask == mask).all()))
    v.raises("no region", TypeError, lambda: m.BoundingConvexHull.
             regional_data("region", cube, axes=axes))
    v.raises("one axis", ValueError, lambda: m.BoundingConvexHull.
             regional_data(h, cube, axes=(1,)))


@P.contract(symbolic=False, cases=80)
def normalised(v):
    """bounded: every pixel gets one over the number of regions holding it;
    the regions' contributions then add up to one"""
    m = v.module(G)
    regs = []
    for _ in range(v.int("nreg", 1, 4)):
        if v.int("hull", 0, 2) == 0:
            regs.append(m.BoundingConvexHull([list(p) for p in points(v)]))
        else:
            regs.append(a_box(v, m)[0])
    for r in regs:
        if v.int("look", 0, 1):
            r.mask
    count = {}
    for r in regs:
        for p in tuples(r.sparse_mask):
            count[p] = count.get(p, 0) + 1
    m.BoundingConvexHull.normalize_masks(
        regs, only_overlapped_regions=bool(v.int("only", 0, 1)))
    for r in regs:
        c = [[int(t) for t in p] for p in r.corners]
        filled(v, r, c, {p: 1.0 / count[p] for p in tuples(r.sparse_mask)})
    v.raises("no regions", TypeError, lambda: m.BoundingConvexHull.
             normalize_masks([regs[0], "region"]))


@P.contract(symbolic=False, cases=80)
def stitched(v):
    """bounded: the stitched image is the sum of the regions at their
    places, undefined pixels count as zero; the inputs are left alone"""
    m = v.module(G)
    regs, data, lims = [], [], []
    for k in range(v.int("nreg", 1, 4)):
        b, lim = a_box(v, m)
        regs.append(b)
        lims.append(lim)
        d = v.array("d%d" % k, (2, lim[3] - lim[2] + 1,
                                lim[1] - lim[0] + 1), float)
        if v.int("hole", 0, 1):
            d[v.int("p", 0, 1), 0, 0] = np.nan
        data.append(d)
    before = [d.copy() for d in data]
    img, reg = m.BoundingBox.project_regions(data, regs, axes=(1, 2))
    lim = (min(t[0] for t in lims), max(t[1] for t in lims),
           min(t[2] for t in lims), max(t[3] for t in lims))
    want = np.zeros((2, lim[3] - lim[2] + 1, lim[1] - lim[0] + 1))
    for d, t in zip(before, lims):
        want[:, t[2] - lim[2]:t[3] - lim[2] + 1,
             t[0] - lim[0]:t[1] - lim[0] + 1] += np.nan_to_num(d)
    v.ensure("shape", img.shape == want.shape)
    v.ensure("sum of the regions", bool(np.allclose(img, want)))
    c = reg.corners
    v.ensure("extent", (c[:, 0].min(), c[:, 0].max(), c[:, 1].min(),
                        c[:, 1].max()) == lim)
    v.ensure("mask", set(tuples(reg.sparse_mask)) ==
             set(p for t in lims for p in pixels(t)))
    v.ensure("inputs are not changed", all(
        np.array_equal(a, b, equal_nan=True) for a, b in zip(data, before)))
    v.raises("different lengths", TypeError, lambda: m.BoundingBox.
             project_regions(data + data[:1], regs, axes=(1, 2)))
    v.raises("not arrays", TypeError, lambda: m.BoundingBox.
             project_regions([[1]] * len(regs), regs, axes=(1, 2)))
    v.raises("not boxes", TypeError, lambda: m.BoundingBox.
             project_regions(data, ["box"] * len(regs), axes=(1, 2)))
    v.raises("shape mismatch", ValueError, lambda: m.BoundingBox.
             project_regions([np.zeros((2, 30, 30)) for _ in regs], regs,
                             axes=(1, 2)))
