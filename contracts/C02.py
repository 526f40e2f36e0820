"""RIME: predict_vis / apply_gains."""
from pyvc.registry import Prop

P = Prop("C02")
MOD = "africanus.rime.predict:"


class M(object):
    """jones algebra on correlation shape () / (n,) / (2, 2)"""

    def __init__(self, v, corr):
        self.v, self.corr = v, corr
        self.full = len(corr) == 2

    def read(self, a, *idx):
        v = self.v
        if a is None:
            return None
        if self.full:
            return [[v.rd(a, *(idx + (i, j))) for j in (0, 1)]
                    for i in (0, 1)]
        return [v.rd(a, *(idx + (i,))) for i in range(self.corr[0])]

    def mul(self, a, b):
        if self.full:
            return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in (0, 1)]
                    for i in (0, 1)]
        return [x * y for x, y in zip(a, b)]

    def H(self, a):
        c = self.v.conj
        if self.full:
            return [[c(a[j][i]) for j in (0, 1)] for i in (0, 1)]
        return [c(x) for x in a]

    def add(self, a, b):
        if self.full:
            return [[a[i][j] + b[i][j] for j in (0, 1)] for i in (0, 1)]
        return [x + y for x, y in zip(a, b)]

    def zero(self):
        return [[0j, 0j], [0j, 0j]] if self.full else [0j] * self.corr[0]

    def el(self, a, c):
        return a[c[0]][c[1]] if self.full else a[c[0]]

    def idx(self):
        if self.full:
            return [(i, j) for i in (0, 1) for j in (0, 1)]
        return [(i,) for i in range(self.corr[0])]

    def sum(self, n, f):
        """element-wise sum of matrices"""
        if self.full:
            return [[self.v.sum(n, lambda s: f(s)[i][j]) for j in (0, 1)]
                    for i in (0, 1)]
        return [self.v.sum(n, lambda s: f(s)[i])
                for i in range(self.corr[0])]


def inputs(v, what, corr, rows=1):
    ns, nt, na, nc = (v.dim("nsrc"), v.dim("ntime", 1), v.dim("nant", 1),
                      v.dim("nchan"))
    nr = v.dim("nrow", 1)
    d = dict(ns=ns, nt=nt, na=na, nc=nc, nr=nr)
    d["ti"] = v.array("time_index", (nr,), int, lo=0, hi=nt)
    d["a1"] = v.array("antenna1", (nr,), int, lo=0, hi=na)
    d["a2"] = v.array("antenna2", (nr,), int, lo=0, hi=na)
    k = complex
    d["dde1"] = v.array("dde1", (ns, nt, na, nc) + corr, k) if "d" in what \
        else None
    d["coh"] = v.array("coh", (ns, nr, nc) + corr, k) if "c" in what else None
    d["dde2"] = v.array("dde2", (ns, nt, na, nc) + corr, k) if "d" in what \
        else None
    d["die1"] = v.array("die1", (nt, na, nc) + corr, k) if "g" in what \
        else None
    d["base"] = v.array("base", (nr, nc) + corr, k) if "b" in what else None
    d["die2"] = v.array("die2", (nt, na, nc) + corr, k) if "g" in what \
        else None
    return d


def spec(v, m, d, tmin, r, f):
    t = v.rd(d["ti"], r) - tmin
    p, q = v.rd(d["a1"], r), v.rd(d["a2"], r)
    tot = m.zero()
    if d["dde1"] is not None or d["coh"] is not None:
        def src(s):
            if d["dde1"] is None:
                return m.read(d["coh"], s, r, f)
            e1 = m.read(d["dde1"], s, t, p, f)
            e2 = m.H(m.read(d["dde2"], s, t, q, f))
            if d["coh"] is None:
                return m.mul(e1, e2)
            return m.mul(m.mul(e1, m.read(d["coh"], s, r, f)), e2)
        tot = m.add(tot, m.sum(d["ns"], src))
    if d["base"] is not None:
        tot = m.add(tot, m.read(d["base"], r, f))
    if d["die1"] is not None:
        tot = m.mul(m.mul(m.read(d["die1"], t, p, f), tot),
                    m.H(m.read(d["die2"], t, q, f)))
    return tot


CORR = [(1,), (2,), (2, 2)]
COMBO = ["dcgb", "dcg", "dcb", "dc", "dgb", "db", "dg", "d", "cgb", "cg",
         "cb", "c", "gb", "b"]


@P.contract(params=[dict(what=w, corr=c) for w in COMBO for c in CORR])
def predict_vis(v, what, corr):
    """V = G_p (B + sum_s E_ps X_pqs E_qs^H) G_q^H for every combination of
    supplied terms; antenna and time lookups per row"""
    f = v.fn(MOD + "predict_vis")
    m = M(v, corr)
    d = inputs(v, what, corr)
    out = f(d["ti"], d["a1"], d["a2"], d["dde1"], d["coh"], d["dde2"],
            d["die1"], d["base"], d["die2"])
    tmin = v.min(d["nr"], lambda k: v.rd(d["ti"], k))
    v.shape_is("vis", out, (d["nr"], d["nc"]) + corr)
    v.each((d["nr"], d["nc"]), lambda r, c: each(v, m, out, d, tmin, r, c))


def each(v, m, out, d, tmin, r, c):
    want = spec(v, m, d, tmin, r, c)
    for ix in m.idx():
        v.eq("V%s" % (ix,), v.rd(out, *((r, c) + ix)), m.el(want, ix))


@P.contract(params=[dict(corr=c) for c in CORR])
def apply_gains(v, corr):
    """V = G_p C G_q^H"""
    f = v.fn(MOD + "apply_gains")
    m = M(v, corr)
    d = inputs(v, "gb", corr)
    out = f(d["ti"], d["a1"], d["a2"], d["die1"], d["base"], d["die2"])
    tmin = v.min(d["nr"], lambda k: v.rd(d["ti"], k))
    v.shape_is("vis", out, (d["nr"], d["nc"]) + corr)
    v.each((d["nr"], d["nc"]), lambda r, c: each(v, m, out, d, tmin, r, c))


BAD = ["one dde", "one die", "rank", "corr mix", "none"]


@P.contract(params=[dict(bad=b) for b in BAD])
def rejects(v, bad):
    """inconsistent terms are refused"""
    f = v.fn(MOD + "predict_vis")
    d = inputs(v, "dcgb", (2, 2))
    e = inputs(v, "dcgb", (2,))
    a = [d["ti"], d["a1"], d["a2"]]
    j = [d["dde1"], d["coh"], d["dde2"], d["die1"], d["base"], d["die2"]]
    if bad == "one dde":
        j[2] = None
    elif bad == "one die":
        j[3] = None
    elif bad == "rank":
        j[4] = d["ti"]
    elif bad == "corr mix":
        j[1] = e["coh"]
    else:
        j = [None] * 6
    v.raises(bad, Exception, lambda: f(*(a + j)))


@P.contract(params=[dict(what=w, streams=s) for w in COMBO
                    for s in (None, True)], symbolic=False, cases=40)
def predict_lazy(v, what, streams):
    """chunking sources, channels, and rows together with times does not
    change the result, whichever way sources are summed"""
    import numpy as np
    f = v.fn("africanus.rime.dask_predict:predict_vis")
    g = v.fn(MOD + "predict_vis")
    corr = v.choice(CORR)
    ns, nc = v.chunks("src", v.choice([1, 2, 3])), v.chunks("chan", 2)
    nb = v.choice([1, 2])
    nt, nr = v.chunks("time", nb), v.chunks("row", nb)
    na = int(v.dim("nant", 1))
    S, T, R, C = [int(sum(x)) for x in (ns, nt, nr, nc)]
    # the rows of a chunk refer to the times of the same chunk, from its first
    ti = np.zeros(R, int)
    t0 = r0 = 0
    for t, r in zip(nt, nr):
        ti[r0:r0 + r] = v.rng.integers(t0, t0 + t, size=int(r))
        ti[r0 + int(v.rng.integers(0, r))] = t0
        t0, r0 = t0 + int(t), r0 + int(r)
    a1 = v.array("antenna1", (R,), int, lo=0, hi=na)
    a2 = v.array("antenna2", (R,), int, lo=0, hi=na)

    def arr(name, has, shape):
        if has not in what:
            return None
        ty = np.complex64 if name == single else np.complex128
        return v.array(name, shape + corr, ty)
    single = v.choice(["", "", "base", "coh"])
    args = [arr("dde1", "d", (S, T, na, C)), arr("coh", "c", (S, R, C)),
            arr("dde2", "d", (S, T, na, C)), arr("die1", "g", (T, na, C)),
            arr("base", "b", (R, C)), arr("die2", "g", (T, na, C))]
    size = {0: (ns, nt, None, nc), 1: (ns, nr, nc), 2: (ns, nt, None, nc),
            3: (nt, None, nc), 4: (nr, nc), 5: (nt, None, nc)}
    lz = [None if x is None else v.dask(
        x, *(size[k] + (None,) * len(corr))) for k, x in enumerate(args)]
    rows = [v.dask(x, nr) for x in (ti, a1, a2)]
    got = f(*rows, *lz, streams=streams)
    want = g(ti, a1, a2, *args)
    v.ensure("declared shape", tuple(got.shape) == tuple(want.shape))
    v.ensure("declared dtype", got.dtype == want.dtype)
    v.ensure("row chunks", tuple(got.chunks[0]) == tuple(int(x) for x in nr))
    for k in range(nb):
        b = got.blocks[k].compute(scheduler="sync")
        v.ensure("block rows", b.shape[0] == int(nr[k]))
    res = v.compute(got)
    v.all_eq("lazy", res, want.shape, lambda *i: want[i])


@P.contract(params=[dict(bad=b) for b in ("antennas", "dde chunks",
                                          "time chunks", "die antennas",
                                          "die chunks", "die times")],
            symbolic=False, cases=4)
def lazy_rejects(v, bad):
    """chunks that cannot be matched are refused"""
    import numpy as np
    f = v.fn("africanus.rime.dask_predict:predict_vis")
    rows = [v.dask(np.zeros(4, int), (2, 2)) for _ in range(3)]

    def jones(lead, times, ants, chans):
        x = np.ones(tuple([2] * lead) + (2, 2, 2, 1), complex)
        return v.dask(x, *([None] * lead + [times, ants, chans, None]))
    ok, split = (1, 1), (2,)
    a = (ok, split, split)
    b = {"antennas": (ok, ok, split), "chunks": (ok, split, ok),
         "times": (split, split, split)}
    die = "die" in bad
    lead = 0 if die else 1
    kind = {"antennas": "antennas", "dde chunks": "chunks",
            "time chunks": "times", "die antennas": "antennas",
            "die chunks": "chunks", "die times": "times"}[bad]
    names = ("die1_jones", "die2_jones") if die else ("dde1_jones",
                                                      "dde2_jones")
    base = v.dask(np.ones((4, 2, 1), complex), (2, 2), None, None)
    for first, second in ((b[kind], a), (a, b[kind]), (b[kind], b[kind])):
        if kind == "chunks" and first == second:
            continue
        kw = {names[0]: jones(lead, *first), names[1]: jones(lead, *second)}
        v.raises("chunks", ValueError, lambda: f(*rows, base_vis=base, **kw))
