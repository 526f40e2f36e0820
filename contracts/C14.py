"""WSClean sky models: reading them and predicting their visibilities."""
import math
from math import pi, sqrt, log

import numba
import numpy as np
from pyvc.registry import Prop
from contracts.lazy import lazy  # noqa

P = Prop("C14", ["exp, sin, cos and sqrt are uninterpreted functions",
                 "source types are values comparable with 'POINT' and "
                 "'GAUSSIAN'"])
W = "africanus.rime.wsclean_predict:"
F = "africanus.model.wsclean.file_model:"
S = "africanus.model.wsclean.spec_model:"
D = "africanus.rime.dask_predict:"
C = 2.99792458e8
K = sqrt(2.0) * pi / (2.0 * sqrt(2.0 * log(2.0))) / C
TPC = 2.0 * pi / C


class Type(object):
    """a symbolic source type"""

    def __init__(self, is_point):
        self.p = is_point

    def __eq__(self, o):
        if o == "POINT":
            return self.p
        if o == "GAUSSIAN":
            from pyvc import sym
            return sym.s_not(self.p) if hasattr(sym, "s_not") else ~self.p
        return False

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None


class Types(object):
    vc_numba_type = numba.types.Array(numba.types.UnicodeCharSeq(8), 1, "C")

    def __init__(self, v, ns):
        self.v = v
        self.arr = v.array("point", (ns,), bool)
        self.shape, self.ndim = (ns,), 1

    def __getitem__(self, i):
        return Type(self.v.rd(self.arr, i))

    def __len__(self):
        return self.shape[0]


def model(v, ns):
    lm = v.array("lm", (ns, 2), float, lo=-0.6, hi=0.6)
    gs = v.array("gs", (ns, 3), float, lo=0.1, hi=2.0)
    if v.symbolic:
        ty = Types(v, ns)
        return lm, gs, ty, lambda s: v.rd(ty.arr, s)
    pt = v.array("point", (ns,), bool)
    gs = gs.copy()
    gs[:, :2] *= 0.1
    gs[:, 0] *= v.array("extent", (ns,), int, lo=0, hi=4) > 0
    ty = np.array(["POINT" if x else "GAUSSIAN" for x in pt], dtype="<U8")
    return lm, gs, ty, lambda s: bool(pt[s])


def vis_spec(v, ns, lm, gs, pt, uvw, fq, spec, r, c):
    u, w1, w = [v.rd(uvw, r, k) for k in range(3)]
    k = K * v.rd(fq, c)

    def one(s):
        l, m = v.rd(lm, s, 0), v.rd(lm, s, 1)
        ph = TPC * (u * l + w1 * m + w * (v.sqrt(1.0 - l * l - m * m) - 1.0)
                    ) * v.rd(fq, c)
        emaj, emin, a = [v.rd(gs, s, q) for q in range(3)]
        x = (u * v.cos(a) - w1 * v.sin(a)) * emin * k
        y = (u * v.sin(a) + w1 * v.cos(a)) * emaj * k
        sh = v.where(v.or_(pt(s), emaj == 0.0), 1.0,
                     v.exp(-(x * x + y * y)))
        return v.cplx(v.cos(ph), v.sin(ph)) * (v.rd(spec, s, c) * sh)
    return v.sum(ns, one)


@P.contract()
def predict_body(v):
    """every visibility is the sum over all sources of the spectrum times the
    phase, and the Gaussian shape for Gaussian sources"""
    f = v.fn(W + "wsclean_predict_impl")
    ns, nr, nf = v.dim("ns"), v.dim("nr"), v.dim("nf")
    uvw = v.array("uvw", (nr, 3), float, lo=-30.0, hi=30.0)
    fq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    sp = v.array("spec", (ns, nf), float)
    lm, gs, ty, pt = model(v, ns)
    out = f(uvw, lm, ty, gs, fq, sp, np.dtype(np.complex128))
    v.shape_is("vis", out, (nr, nf, 1))
    v.each((nr, nf), lambda r, c: v.eq("vis", v.rd(out, r, c, 0), vis_spec(
        v, ns, lm, gs, pt, uvw, fq, sp, r, c)))


def inputs(v):
    ns, nr, nf, nk = v.dim("ns"), v.dim("nr"), v.dim("nf"), v.dim("nk", lo=1)
    uvw = v.array("uvw", (nr, 3), float, lo=-30.0, hi=30.0)
    fq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    fl = v.array("flux", (ns,), float, lo=0.1, hi=2.0)
    co = v.array("coeffs", (ns, nk), float, lo=0.1, hi=1.5)
    lp = v.array("log", (ns,), bool)
    rf = v.array("ref", (ns,), float, lo=1e7, hi=1e8)
    return ns, nr, nf, uvw, fq, fl, co, lp, rf


@P.contract()
def predict(v):
    """the same with the spectra of the model"""
    f = v.fn(W + "wsclean_predict")
    ns, nr, nf, uvw, fq, fl, co, lp, rf = inputs(v)
    lm, gs, ty, pt = model(v, ns)
    if v.symbolic:
        spec = v.array("spec", (ns, nf), float)

        def spectra(*a):
            v.ensure("arguments of the spectra", len(a) == 5 and all(
                x is y for x, y in zip(a, (fl, co, lp, rf, fq))))
            return spec
        v.use_contract(W + "spectra", spectra)
    else:
        spec = v.fn(S + "spectra")(fl, co, lp, rf, fq)
    out = f(uvw, lm, ty, fl, co, lp, rf, gs, fq)
    v.shape_is("vis", out, (nr, nf, 1))
    v.each((nr, nf), lambda r, c: v.eq("vis", v.rd(out, r, c, 0), vis_spec(
        v, ns, lm, gs, pt, uvw, fq, spec, r, c)))


@P.contract(symbolic=False, cases=20)
def predict_refused(v):
    """other source types are refused"""
    f = v.fn(W + "wsclean_predict")
    ns, nr, nf, uvw, fq, fl, co, lp, rf = inputs(v)
    ns = max(int(ns), 1)
    n = v.int("bad", 0, ns - 1)
    ty = ["POINT"] * ns
    ty[n] = "DISC"
    v.raises("source type", ValueError, lambda: f(
        uvw, np.zeros((ns, 2)), np.array(ty), np.ones(ns), np.ones((ns, 1)),
        np.zeros(ns, bool), np.ones(ns), np.ones((ns, 3)), fq))


@P.contract(symbolic=False, cases=40)
def predict_lazy(v):
    """for every chunking of rows, channels and sources"""
    import dask.array as da
    f, g = v.fn(D + "wsclean_predict"), v.fn(W + "wsclean_predict")
    cs = [v.chunks(x, 2, lo=1) for x in ("s", "r", "c")]
    ns, nr, nf = [sum(c) for c in cs]
    nk = v.int("nk", 1, 3)
    uvw = v.array("uvw", (nr, 3), float, lo=-30.0, hi=30.0)
    fq = v.array("freq", (nf,), float, lo=1e7, hi=1e8)
    fl = v.array("flux", (ns,), float, lo=0.1, hi=2.0)
    co = v.array("coeffs", (ns, nk), float, lo=0.1, hi=1.5)
    lp = v.array("log", (ns,), bool)
    rf = v.array("ref", (ns,), float, lo=1e7, hi=1e8)
    lm, gs, ty, pt = model(v, ns)
    want = g(uvw, lm, ty, fl, co, lp, rf, gs, fq)
    S, R, N = [tuple(c) for c in cs]
    got = f(v.dask(uvw, R, None), v.dask(lm, S, None),
            da.from_array(ty, chunks=(S,)), v.dask(fl, S),
            v.dask(co, S, None), v.dask(lp, S), v.dask(rf, S),
            v.dask(gs, S, None), v.dask(fq, N))
    v.ensure("declared chunks", got.chunks == (R, N, (1,)))
    v.ensure("declared dtype", got.dtype == want.dtype)
    res = v.compute(got)
    v.all_eq("vis", res, want.shape, lambda *i: want[i])


# ------------------------------------------------------------- model files

def number(v, name, lo, hi):
    x = v.real(name, lo=lo, hi=hi)
    return v.choice(["%.6f", "%g", "%e"]) % x


@P.contract(symbolic=False, cases=300)
def load(v):
    """every column of every line is returned under its name, in the
    documented units, with the defaults of the header for empty fields"""
    f = v.fn(F + "load")
    cols = ["Name", "Type", "Ra", "Dec", "I", "SpectralIndex",
            "LogarithmicSI", "ReferenceFrequency", "MajorAxis", "MinorAxis",
            "Orientation"]
    if v.bool("shuffle"):
        k = v.int("rot", 0, len(cols) - 1)
        cols = cols[k:] + cols[:k]
    if v.bool("subset"):
        cols = [c for c in cols if v.bool("keep " + c)] or ["I"]
    refdef = v.choice([None, "1.5e8", "123456789.0"])
    header = "Format = " + ", ".join(
        "ReferenceFrequency='%s'" % refdef
        if c == "ReferenceFrequency" and refdef else c for c in cols)
    if v.bool("comment"):
        header += " # a comment"
    lines = [""] * v.int("blank", 0, 2)
    if v.bool("leading comment"):
        lines.append("# WSClean model")
    lines.append(header)
    want = {c: [] for c in cols}
    for n in range(v.int("sources", 0, 4)):
        fields = []
        for c in cols:
            txt, val = field(v, c, refdef)
            fields.append(txt)
            want[c].append(val)
        lines.append((", " if v.bool("sp") else ",").join(fields))
    if v.bool("newlines"):
        lines = [x + "\n" for x in lines]
    got = list(f(lines))
    v.ensure("columns", [k for k, _ in got] == cols)
    for k, vals in got:
        v.ensure("one value per source in " + k,
                 len(vals) == len(want[k]))
        for a, b in zip(vals, want[k]):
            if isinstance(b, (str, bool)):
                v.ensure(k, a == b and type(a) is type(b))
            elif isinstance(b, list):
                v.ensure(k, [float(x) for x in a] == b)
            else:
                v.eq(k, a, b)


def field(v, c, refdef):
    sgn = v.choice(["", "+", "-"])
    s = -1.0 if sgn == "-" else 1.0
    a, b = v.int("a", 0, 23), v.int("b", 0, 59)
    x = v.choice(["0", "7", "12.5", "59.999", "05.25"])
    if c == "Name":
        w = "s%dc%d" % (a, b)
        return w, w
    if c == "Type":
        w = v.choice(["POINT", "GAUSSIAN"])
        return w, w
    if c == "Ra":
        return "%s%02d:%02d:%s" % (sgn, a, b, x), s * 2 * pi / 24 * (
            a + b / 60. + float(x) / 3600.)
    if c == "Dec":
        d = v.int("d", 0, 90)
        return "%s%02d.%02d.%s" % (sgn, d, b, x), s * math.radians(
            d + b / 60. + float(x) / 3600.)
    if c == "SpectralIndex":
        k = [float("%.3f" % v.real("k")) for _ in range(v.int("nk", 0, 3))]
        return "[" + v.choice([",", ", "]).join(repr(y) for y in k) + "]", k
    if c == "LogarithmicSI":
        w = v.bool("si")
        return ("true" if w else "false"), bool(w)
    if c == "ReferenceFrequency" and refdef and v.bool("default"):
        return "", float(refdef)
    if c in ("MajorAxis", "MinorAxis", "Orientation") and v.bool("empty"):
        return "", 0.0
    t = number(v, "num", 0.0, 100.0)
    n = float(t)
    if c in ("MajorAxis", "MinorAxis"):
        return t, math.radians(n / 3600.)
    if c == "Orientation":
        return t, math.radians(n)
    return t, n


@P.contract(symbolic=False, cases=60)
def load_refused(v):
    """malformed files raise ValueError"""
    f = v.fn(F + "load")
    for name, lines in [
            ("empty", []), ("comments only", ["# x", ""]),
            ("no format", ["Name, I", "a, 1.0"]),
            ("not a format", ["Frmat = Name, I", "a, 1.0"]),
            ("unknown column", ["Format = Name, Colour", "a, b"]),
            ("too few", ["Format = Name, I", "a"]),
            ("too many", ["Format = Name, I", "a, 1.0, 2.0"]),
            ("no default", ["Format = Name, Ra", "a, "]),
            ("bad ra", ["Format = Name, Ra", "a, 1.2.3"]),
            ("bad dec", ["Format = Name, Dec", "a, x"]),
            ("bad number", ["Format = Name, I", "a, flux"])]:
        v.raises(name, ValueError, lambda: list(f(lines)))


@P.contract(symbolic=False, cases=10)
def load_file(v):
    """a file name loads the lines of that file and closes it"""
    import os
    import tempfile
    f = v.fn(F + "load")
    lines = ["Format = Name, I\n"] + [
        "s%d, %d.5\n" % (i, i) for i in range(v.int("n", 0, 5))]
    d = tempfile.mkdtemp()
    p = os.path.join(d, "m.txt")
    try:
        with open(p, "w") as fh:
            fh.writelines(lines)
        v.ensure("same", [(a, list(b)) for a, b in f(p)] ==
                 [(a, list(b)) for a, b in f(lines)])
    finally:
        os.remove(p)
        os.rmdir(d)
