"""Stokes <-> correlation conversion."""
from pyvc.registry import Prop

P = Prop("C01", assumptions=[
    "schemas are enumerated (every Stokes, linear and circular quantity in "
    "every supported role, flat, nested, integer ids); the data are symbolic"])

MOD = "africanus.model.coherency.conversion:"
CASA = ["Undefined", "I", "Q", "U", "V", "RR", "RL", "LR", "LL", "XX", "XY",
        "YX", "YY"]
STOKES = ["I", "Q", "U", "V"]
LIN = [["XX", "XY"], ["YX", "YY"]]
CIRC = [["RR", "RL"], ["LR", "LL"]]
# IAU conventions: correlation = a*A + b*B (complex coefficients)
FROM = {"RR": ("I", 1, "V", 1), "LL": ("I", 1, "V", -1),
        "RL": ("Q", 1, "U", 1j), "LR": ("Q", 1, "U", -1j),
        "XX": ("I", 1, "Q", 1), "YY": ("I", 1, "Q", -1),
        "XY": ("U", 1, "V", 1j), "YX": ("U", 1, "V", -1j)}
# stokes = part of (c1 + s c2) / 2
TO = {"I": [("XX", "YY", 1, "re"), ("RR", "LL", 1, "re")],
      "Q": [("XX", "YY", -1, "re"), ("RL", "LR", 1, "re")],
      "U": [("XY", "YX", 1, "re"), ("RL", "LR", -1, "im")],
      "V": [("XY", "YX", -1, "im"), ("RR", "LL", -1, "re")]}


def flat(schema, idx=()):
    if not isinstance(schema, (list, tuple)):
        schema = [schema]
    for i, e in enumerate(schema):
        if isinstance(e, (list, tuple)):
            for x in flat(e, idx + (i,)):
                yield x
        else:
            yield (e if isinstance(e, str) else CASA[e]), idx + (i,)


def shp(schema):
    if not isinstance(schema, (list, tuple)):
        return (1,)
    return (len(schema),) + (shp(schema[0]) if isinstance(
        schema[0], (list, tuple)) else ())


def spec(v, arr, lead, isch, okey):
    """the value of output quantity ``okey``"""
    at = dict(flat(isch))

    def rd(k):
        return v.rd(arr, *(tuple(lead) + at[k]))
    if okey in FROM:
        a, ca, b, cb = FROM[okey]
        return rd(a) * (ca + 0j) + rd(b) * (cb + 0j)
    for c1, c2, s, part in TO[okey]:
        if c1 in at and c2 in at:
            z = rd(c1) + rd(c2) * s
            return (v.re(z) if part == "re" else v.im(z)) * 0.5
    raise KeyError(okey)


def _conv(v, isch, osch, dtype, nlead=2):
    f = v.fn(MOD + "convert")
    lead = tuple(v.dim("n%d" % k) for k in range(nlead))
    x = v.array("x", lead + shp(isch), dtype)
    out = f(x, isch, osch)
    os = shp(osch)
    v.shape_is("output", out, lead + os)
    for name, oi in flat(osch):
        v.each(lead, lambda *l: v.eq(name, v.rd(out, *(tuple(l) + oi)),
                                     spec(v, x, l, isch, name)))
    real = all(n in TO for n, _ in flat(osch))
    v.ensure("dtype kind", out.dtype.kind == ("f" if real else "c"))
    return x, out


ID = dict((n, i) for i, n in enumerate(CASA))
CASES = []
for dt in (float, complex):
    for s in (LIN, CIRC, ["XX", "XY", "YX", "YY"], ["RR", "RL", "LR", "LL"],
              [["RL"], ["LL"]], ["XX", "YY"], ["RR"], ["YX", "XY"],
              [[["XX", "LR"], ["RL", "YY"]]], [ID["XX"], "YY"]):
        CASES.append(dict(isch=STOKES, osch=s, dtype=dt))
    CASES.append(dict(isch=[["V", "U"], ["Q", "I"]], osch=LIN, dtype=dt))
    CASES.append(dict(isch=[[ID["V"]], [ID["Q"]], [ID["U"]], [ID["I"]]],
                      osch=CIRC, dtype=dt))
    CASES.append(dict(isch=["I", "Q"], osch=["YY", "XX"], dtype=dt))
    CASES.append(dict(isch=["I", "V"], osch=[["LL"], ["RR"]], dtype=dt))
    for s in (STOKES, [["V", "U"], ["Q", "I"]], ["I"], ["V"], "U",
              [[["Q"]], [["U"]]], [ID["V"], ID["I"]]):
        CASES.append(dict(isch=LIN, osch=s, dtype=dt))
        CASES.append(dict(isch=CIRC, osch=s, dtype=dt))
        CASES.append(dict(isch=["LL", "XY", "RR", "YX", "LR", "RL"], osch=s,
                          dtype=dt) if "I" not in str(s) else
                     dict(isch=["YY", "LR", "XX", "RL", "XY", "YX"], osch=s,
                          dtype=dt))
    CASES.append(dict(isch=["XX", "YY"], osch=["I", "Q"], dtype=dt))
    CASES.append(dict(isch=["LL", "RR"], osch=["V", "I"], dtype=dt))


@P.contract(params=[c for c in CASES if not (
    c["isch"] == ["LL", "XY", "RR", "YX", "LR", "RL"] and False)], cases=30)
def convert(v, isch, osch, dtype):
    """every produced element is the IAU definition of the requested quantity,
    at the requested position, for data of any value and leading shape"""
    _conv(v, isch, osch, dtype)


@P.contract(params=[dict(nlead=0), dict(nlead=1), dict(nlead=3)])
def convert_rank(v, nlead):
    """any number of leading dimensions"""
    _conv(v, STOKES, LIN, float, nlead)
    _conv(v, CIRC, STOKES, complex, nlead) if not v.symbolic else None


@P.contract(params=[dict(corr=c, shuffled=s) for c in (
    LIN, CIRC, ["XX", "XY", "YX", "YY"], [["LL", "LR"], ["RL", "RR"]])
    for s in (False, True)])
def round_trip(v, corr, shuffled):
    """stokes -> correlations -> stokes is the identity on real Stokes"""
    f = v.fn(MOD + "convert")
    n, m = v.dim("n"), v.dim("m")
    st = ["U", "I", "V", "Q"] if shuffled else STOKES
    x = v.array("x", (n, m, 4), float)
    back = f(f(x, st, corr), corr, st)
    v.all_eq("round trip", back, (n, m, 4), lambda i, j, k: v.rd(x, i, j, k))


@P.contract()
def round_trip_corr(v):
    """correlations -> stokes -> correlations is the identity on data with
    the Hermitian structure of a real sky"""
    f = v.fn(MOD + "convert")
    n = v.dim("n")
    s = v.array("s", (n, 4), float)
    for corr in (LIN, CIRC):
        x = f(s, STOKES, corr)
        y = f(f(x, corr, ["Q", "V", "I", "U"]), ["Q", "V", "I", "U"], corr)
        v.all_eq("round trip", y, (n, 2, 2), lambda i, j, k:
                 v.rd(x, i, j, k))


@P.contract()
def linear_circular_consistent(v):
    """the Stokes parameters recovered do not depend on the basis"""
    f = v.fn(MOD + "convert")
    n = v.dim("n")
    s = v.array("s", (n, 4), float)
    a = f(f(s, STOKES, LIN), LIN, STOKES)
    b = f(f(s, STOKES, CIRC), CIRC, STOKES)
    v.all_eq("basis", a, (n, 4), lambda i, k: v.rd(b, i, k))


@P.contract(params=[dict(isch=a, osch=b, shape=c) for a, b, c in [
    (["XX", "YY"], ["V"], (2,)), (["XX"], ["I"], (1,)),
    (["I", "Q"], ["XX", "XY"], (2,)), (STOKES, ["RR", "RR"], (4,)),
    (["I", "I", "U", "V"], ["RR"], (4,)), (STOKES, LIN, (3,)),
    (LIN, STOKES, (4,)), (LIN, STOKES, (2, 3)), (STOKES, [[9]], (5,)),
    (STOKES, [13371], (4,)), ([ID["I"], -3], ["XX"], (2,)),
    ([["XX", "XY"], ["YX"]], ["I"], (2, 2)), (STOKES, [1.5], (4,)),
    (STOKES, ["I"], (4,)), (LIN, ["XX"], (2, 2)), (CIRC, ["PP"], (2, 2))]])
def rejects(v, isch, osch, shape):
    """requests that cannot be met raise instead of returning data"""
    f = v.fn(MOD + "convert")
    n = v.dim("n")
    x = v.array("x", (n,) + shape, complex)
    v.raises("rejects", Exception, lambda: f(x, isch, osch))


@P.contract(params=[dict(osch=o) for o in (["PP"], ["RX"], ["I", "nonsense"],
                                           [["XX", "XY"], ["YX", "Linear"]],
                                           [13])])
def unknown(v, osch):
    """outputs without a conversion are refused with a ValueError"""
    f = v.fn(MOD + "convert")
    n = v.dim("n")
    x = v.array("x", (n, 8), complex)
    v.raises("unknown", ValueError, lambda: f(
        x, STOKES + ["XX", "YY", "XY", "YX"], osch))


@P.contract(params=[dict(isch=a, osch=b, dtype=c) for a, b, c in [
    (STOKES, LIN, float), (STOKES, CIRC, complex), (LIN, STOKES, complex),
    (CIRC, ["V", "I"], complex), (["U", "I", "V", "Q"], ["XX", "YX"], float),
    (["LL", "RR"], ["V", "I"], complex)]])
def lazy(v, isch, osch, dtype):
    """the chunked conversion equals the definition for every chunking of
    the leading dimensions"""
    f = v.fn("africanus.model.coherency.dask:convert")
    cr, cc = v.chunks("rows", 2), v.chunks("chans", 2)
    n, m = cr[0] + cr[1], cc[0] + cc[1]
    x = v.array("x", (n, m) + shp(isch), dtype)
    out = f(v.dask(x, cr, cc, *([None] * len(shp(isch)))), isch, osch)
    at = {idx: k for k, idx in flat(osch)}
    v.all_eq("out", out, (n, m) + shp(osch), lambda i, j, *c: spec(
        v, x, (i, j), isch, at[tuple(int(y) for y in c)]))
