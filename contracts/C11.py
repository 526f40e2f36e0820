"""Celestial coordinates and direction cosines."""
from pyvc.registry import Prop
from contracts.lazy import lazy

P = Prop("C11", [
    "sin, cos, arcsin, arctan2 and sqrt are uninterpreted real functions; "
    "used lemmas: sin^2 + cos^2 = 1; sin(arcsin z) = z and "
    "cos(arcsin z) = sqrt(1 - z^2) for |z| <= 1; sqrt(x^2 + y^2) sin(arctan2"
    "(y, x)) = y and sqrt(x^2 + y^2) cos(arctan2(y, x)) = x"])
M = "africanus.coordinates.coordinates:"
D = "africanus.coordinates.dask:"
PC = [dict(pc=x) for x in (False, True)]


def centre(v, pc):
    if not pc:
        return None, (0.0, 0.0)
    a = v.array("pc", (2,), float, lo=-1.5, hi=1.5)
    return a, (v.rd(a, 0), v.rd(a, 1))


def cosines(v, ra, dec, c):
    d = ra - c[0]
    l = v.cos(dec) * v.sin(d)
    m = v.sin(dec) * v.cos(c[1]) - v.cos(dec) * v.sin(c[1]) * v.cos(d)
    return l, m


@P.contract(params=[dict(pc=x, k=k) for x in (False, True) for k in (2, 3)])
def to_lmn(v, pc, k):
    """l, m (and n) are the direction cosines relative to the phase centre"""
    f = v.fn(M + ("radec_to_lm" if k == 2 else "radec_to_lmn"))
    ns = v.dim("ns")
    rd = v.array("radec", (ns, 2), float, lo=-1.5, hi=1.5)
    p, c = centre(v, pc)
    out = f(rd, p) if pc else f(rd)
    v.shape_is("lmn", out, (ns, k))

    def one(s):
        l, m = cosines(v, v.rd(rd, s, 0), v.rd(rd, s, 1), c)
        v.eq("l", v.rd(out, s, 0), l)
        v.eq("m", v.rd(out, s, 1), m)
        if k == 3:
            v.eq("n", v.rd(out, s, 2), v.sqrt(1.0 - l * l - m * m))
    v.each((ns,), one)


@P.contract(params=[dict(pc=x, k=k) for x in (False, True) for k in (2, 3)],
            cases=200)
def round_trip(v, pc, k):
    """the sky position returned for direction cosines on the front
    hemisphere has those direction cosines"""
    f = v.fn(M + ("lm_to_radec" if k == 2 else "lmn_to_radec"))
    ns = v.dim("ns")
    lm = v.array("lm", (ns, 2), float, lo=-0.7, hi=0.7)
    p, c = centre(v, pc)

    def n_(s):
        l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
        return v.sqrt(1.0 - l * l - m * m)
    x = lm if k == 2 else v.input_fn(
        "lmn", (ns, 3), float, lambda s, j: v.where(
            j == 2, n_(s), v.rd(lm, s, v.where(j == 0, 0, 1)))
        if v.symbolic else (n_(s) if j == 2 else lm[s, j]))
    out = f(x, p) if pc else f(x)
    v.shape_is("radec", out, (ns, 2))

    def one(s):
        l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
        v.assume(l * l + m * m <= 1)
        n = n_(s)
        z = m * v.cos(c[1]) + n * v.sin(c[1])
        y = n * v.cos(c[1]) - m * v.sin(c[1])
        q = l * l + y * y
        v.assume(q > 1e-9)
        if v.symbolic:
            r = v.sqrt(q)
            v.assume(r > 0)
        l2, m2 = cosines(v, v.rd(out, s, 0), v.rd(out, s, 1), c)
        v.eq("l", l2, l)
        v.eq("m", m2, m)
    v.each((ns,), one)


@P.contract()
def refused(v):
    """arrays of the wrong shape are refused"""
    for name, k in (("radec_to_lm", 2), ("radec_to_lmn", 2),
                    ("lm_to_radec", 2), ("lmn_to_radec", 3)):
        f = v.fn(M + name)
        for j in (1, 2, 3, 4):
            if j != k:
                a = v.array("%s%d" % (name, j), (v.dim("ns"), j), float)
                v.raises(name, ValueError, lambda: f(a))


@P.contract(params=[dict(name=n, k=k, o=o, pc=p) for n, k, o in (
    ("radec_to_lm", 2, 2), ("radec_to_lmn", 2, 3), ("lm_to_radec", 2, 2),
    ("lmn_to_radec", 3, 2)) for p in (False, True)])
def lazy_version(v, name, k, o, pc):
    """chunking the sources does not change the result"""
    import numpy as np
    c = v.chunks("s", 2)
    ns = c[0] + c[1]
    args = [(name.split("_")[0], v.array("x", (ns, k), float, lo=-0.5,
                                         hi=0.5), ("s", "a")),
            ("phase_centre", v.array("pc", (2,), float, lo=-1.5, hi=1.5)
             if pc else None, ("c",) if pc else None)]
    lazy(v, D + name, M + name, args, {"s": c},
         (("s", "o"), (ns, o), np.dtype(float)))
