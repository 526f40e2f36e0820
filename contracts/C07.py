"""Averaging rows and channels into bins."""
import numpy
from pyvc.registry import Prop

P = Prop("C07")
T = "africanus.averaging.time_and_channel_avg:"
M = "africanus.averaging.time_and_channel_mapping:"


def rows(v, flagged, no=None):
    """an arbitrary row map: every input row goes to some output row; input
    rows of one output row share their antennas"""
    nr = v.dim("nr", 1)
    no = v.dim("no", 1) if no is None else no
    m = v.array("map", (nr,), "u4", lo=0, hi=no)
    bl1 = v.array("bl1", (no,), "i4", lo=0, hi=8)
    bl2 = v.array("bl2", (no,), "i4", lo=0, hi=8)
    a1 = v.input_fn("ant1", (nr,), "i4", lambda r: v.rd(bl1, v.rd(m, r)))
    a2 = v.input_fn("ant2", (nr,), "i4", lambda r: v.rd(bl2, v.rd(m, r)))
    fr = ofr = None
    if flagged:
        fr = v.array("flag_row", (nr,), "u1", lo=0, hi=2)
        ofr = v.array("out_flag_row", (no,), "u1", lo=0, hi=2)
    meta = v.module(M[:-1]).RowMapOutput(
        m, v.array("time", (no,), float), v.array("interval", (no,), float),
        ofr)
    return nr, no, m, bl1, bl2, a1, a2, fr, ofr, meta


def used(v, m, fr, ofr, r, o):
    """input row r contributes to output row o"""
    c = v.rd(m, r) == o
    if fr is not None:
        c = v.and_(v.rd(fr, r) == v.rd(ofr, v.rd(m, r)), c)
    return c


def total(v, nr, m, fr, ofr, o, f):
    return v.sum(nr, lambda r: v.where(used(v, m, fr, ofr, r, o), f(r), 0.0))


@P.contract(params=[dict(flagged=f, what=w) for f in (False, True)
                    for w in ("", "tewus", "ts")])
def row_average(v, flagged, what):
    """uvw and time centroid are means, exposure and weight sums over the
    rows of the bin with the bin's flag state; sigma is propagated"""
    f = v.fn(T + "row_average")
    nr, no, m, bl1, bl2, a1, a2, fr, ofr, meta = rows(v, flagged)
    nc = v.dim("nc")
    tc = v.array("tc", (nr,), float) if "t" in what else None
    ex = v.array("ex", (nr,), float) if "e" in what else None
    uvw = v.array("uvw", (nr, 3), float) if "u" in what else None
    wt = v.array("wt", (nr, nc), float, lo=0.5, hi=2.0) \
        if "w" in what else None
    sg = v.array("sg", (nr, nc), float, lo=0.5, hi=2.0) \
        if "s" in what else None
    out = f(meta, a1, a2, flag_row=fr, time_centroid=tc, exposure=ex,
            uvw=uvw, weight=wt, sigma=sg)

    def tot(o, g):
        return total(v, nr, m, fr, ofr, o, g)

    def row(r):
        v.eq("antenna1", v.rd(out.antenna1, v.rd(m, r)), v.rd(a1, r))
        v.eq("antenna2", v.rd(out.antenna2, v.rd(m, r)), v.rd(a2, r))
    v.each((nr,), row)
    if not v.symbolic:
        def mean(o, g):
            n = tot(o, lambda r: 1)
            return tot(o, g) / n if n else 0.0
        if tc is not None:
            v.all_eq("time centroid", out.time_centroid, (no,), lambda o:
                     mean(o, lambda r: tc[r]))
        if uvw is not None:
            v.all_eq("uvw", out.uvw, (no, 3), lambda o, k: mean(
                o, lambda r: uvw[r, k]))
    else:
        def mean(name, x, o, g):
            n = tot(o, lambda r: 1)
            v.assume(n > 0)
            v.eq(name + " times count", x * n, tot(o, g))
        if tc is not None:
            v.shape_is("time centroid", out.time_centroid, (no,))
            v.each((no,), lambda o: mean("time centroid", v.rd(
                out.time_centroid, o), o, lambda r: v.rd(tc, r)))
        if uvw is not None:
            v.shape_is("uvw", out.uvw, (no, 3))
            v.each((no, 3), lambda o, k: mean("uvw", v.rd(
                out.uvw, o, k), o, lambda r: v.rd(uvw, r, k)))
    for name, x, y in (("time_centroid", tc, out.time_centroid),
                       ("exposure", ex, out.exposure), ("uvw", uvw, out.uvw),
                       ("weight", wt, out.weight), ("sigma", sg, out.sigma)):
        v.ensure("%s present as given" % name, (x is None) == (y is None))
    if ex is not None:
        v.all_eq("exposure", out.exposure, (no,), lambda o: tot(
            o, lambda r: v.rd(ex, r)))
    if wt is not None:
        v.all_eq("weight", out.weight, (no, nc), lambda o, c: tot(
            o, lambda r: v.rd(wt, r, c)))
    if sg is not None:
        def one(o, c):
            def w(r):
                return v.rd(wt, r, c) if wt is not None else 1.0
            num = tot(o, lambda r: w(r) * w(r) * v.rd(sg, r, c) * v.rd(
                sg, r, c))
            den = tot(o, w)
            n = tot(o, lambda r: 1)
            x = v.rd(out.sigma, o, c)
            if v.symbolic:
                v.assume(v.and_(n > 0, den > 0, num >= 0))
                v.eq("sigma", x, v.sqrt(num / (den * den)))
            else:
                v.eq("sigma", x, v.sqrt(num) / den if n else 0.0)
        v.shape_is("sigma", out.sigma, (no, nc))
        v.each((no, nc), one)


def chans(v):
    nf = v.dim("nf", 1)
    nb = v.dim("nb", 1)
    cm = v.array("cmap", (nf,), "u4", lo=0, hi=nb)
    return nf, nb, cm


@P.contract(params=[dict(what=w) for w in ("", "f", "wbr", "fwbr")])
def chan_average(v, what):
    """frequencies are means, widths, bandwidths and resolutions sums over
    the channels of the bin"""
    f = v.fn(T + "chan_average")
    nf, nb, cm = chans(v)
    fq = v.array("freq", (nf,), float) if "f" in what else None
    cw = v.array("width", (nf,), float) if "w" in what else None
    bw = v.array("bw", (nf,), float) if "b" in what else None
    rs = v.array("res", (nf,), float) if "r" in what else None
    if not v.symbolic:
        v.assume(set(cm.tolist()) == set(range(nb)))
    out = f((cm, nb), chan_freq=fq, chan_width=cw, effective_bw=bw,
            resolution=rs)

    def tot(o, g):
        return v.sum(nf, lambda c: v.where(v.rd(cm, c) == o, g(c), 0.0))
    for name, x, y in (("chan_freq", fq, out.chan_freq),
                       ("chan_width", cw, out.chan_width),
                       ("effective_bw", bw, out.effective_bw),
                       ("resolution", rs, out.resolution)):
        v.ensure("%s present as given" % name, (x is None) == (y is None))
        if x is None:
            continue
        v.shape_is(name, y, (nb,))
        if name == "chan_freq":
            def one(o, x=x, y=y):
                n = tot(o, lambda c: 1)
                v.assume(n > 0)
                v.eq("frequency", v.rd(y, o) * n, tot(
                    o, lambda c: v.rd(x, c)))
            v.each((nb,), one)
        else:
            v.all_eq(name, y, (nb,), lambda o, x=x: tot(
                o, lambda c: v.rd(x, c)))


OPTS = ["v", "vw", "vs", "vf", "fWS", "f", "WS"]


@P.contract(params=[dict(what=w, flagged=fl) for w in OPTS
                    for fl in (False, True)])
def row_chan_average(v, what, flagged):
    """weighted means over the unflagged samples of the bin, or over the
    flagged ones when there is no unflagged one; the bin is flagged exactly
    then"""
    f = v.fn(T + "row_chan_average")
    nr, no, m, bl1, bl2, a1, a2, fr, ofr, meta = rows(v, flagged)
    nf, nb, cm = chans(v)
    nc = v.dim("nc", 1)
    sh = (nr, nf, nc)

    def arr(k, name, shape, *a, **kw):
        return v.array(name, shape, *a, **kw) if k in what else None
    vis = arr("v", "vis", sh, complex)
    flag = arr("f", "flag", sh, bool)
    wt = arr("w", "weight", (nr, nc), float, lo=0.5, hi=2.0)
    ws = arr("W", "wspec", sh, float, lo=0.5, hi=2.0)
    ss = arr("S", "sspec", sh, float, lo=0.5, hi=2.0)

    def hit(o, b, k, r, c, want):
        """sample r, c goes to bin o, b and its flag is want"""
        x = v.and_(used(v, m, fr, ofr, r, o), v.rd(cm, c) == b)
        if flag is None:
            return x if not want else v.and_(x, False)
        fl = v.rd(flag, r, c, k)
        return v.and_(x, fl if want else v.not_(fl))

    def tot(o, b, k, want, g):
        return v.sum(nr, lambda r: v.sum(nf, lambda c: v.where(
            hit(o, b, k, r, c, want), g(r, c), 0.0)))

    def weight(r, c, k):
        if ws is not None:
            return v.rd(ws, r, c, k)
        if wt is not None:
            return v.rd(wt, r, k)
        return 1.0
    if not v.symbolic:
        for o in range(no):
            for b in range(nb):
                v.assume(any(used(v, m, fr, ofr, r, o) and cm[c] == b
                             for r in range(nr) for c in range(nf)))
    else:
        v.assume_all((no, nb, nc), lambda o, b, k: tot(
            o, b, k, False, lambda r, c: 1) + tot(
                o, b, k, True, lambda r, c: 1) > 0)
    out = f(meta, (cm, nb), flag_row=fr, weight=wt, vis=vis, flag=flag,
            weight_spectrum=ws, sigma_spectrum=ss)
    for name, x, y in (("vis", vis, out.vis), ("flag", flag, out.flag),
                       ("weight spectrum", ws, out.weight_spectrum),
                       ("sigma spectrum", ss, out.sigma_spectrum)):
        v.ensure("%s present as given" % name, (x is None) == (y is None))
        if x is not None:
            v.shape_is(name, y, (no, nb, nc))

    def one(o, b, k, bad):
        n = tot(o, b, k, False, lambda r, c: 1)
        if bad:
            v.assume(n <= 0)
        else:
            v.assume(n > 0)
        W = tot(o, b, k, bad, lambda r, c: weight(r, c, k))
        if v.symbolic:
            v.assume(W > 0)
        if flag is not None:
            v.eq("flag", v.rd(out.flag, o, b, k), bad)
        if vis is not None:
            v.eq("vis", v.rd(out.vis, o, b, k) * W, tot(
                o, b, k, bad, lambda r, c: v.rd(vis, r, c, k) * weight(
                    r, c, k)))
        if ws is not None:
            v.eq("weight", v.rd(out.weight_spectrum, o, b, k), tot(
                o, b, k, bad, lambda r, c: v.rd(ws, r, c, k)))
        if ss is not None:
            num = tot(o, b, k, bad, lambda r, c: v.rd(ss, r, c, k) * v.rd(
                ss, r, c, k) * weight(r, c, k) * weight(r, c, k))
            if v.symbolic:
                v.assume(num >= 0)
            v.eq("sigma", v.rd(out.sigma_spectrum, o, b, k), v.sqrt(
                num / (W * W)))
    if v.symbolic:
        v.each((no, nb, nc), lambda o, b, k: one(o, b, k, False))
        if flag is not None:
            v.each((no, nb, nc), lambda o, b, k: one(o, b, k, True))
        return
    for o in range(no):
        for b in range(nb):
            for k in range(nc):
                one(o, b, k, not any(hit(o, b, k, r, c, False)
                                     for r in range(nr) for c in range(nf)))

OUT = ["time", "interval", "flag_row"]


@P.contract(params=[dict(default=d) for d in (False, True)])
def channel_mapper(v, default):
    """channel c goes to bin c // size; there are ceil(nchan / size) bins"""
    f = v.fn(M + "channel_mapper")
    n = v.dim("n")
    k = 1 if default else v.int("size", 1, 6)
    cm, nb = f(n) if default else f(n, k)
    v.shape_is("map", cm, (n,))
    v.each((n,), lambda c: v.eq("bin", v.rd(cm, c), c // k))
    v.eq("number of bins", nb, (n + k - 1) // k)


@P.contract(params=[dict(what=w, flagged=fl) for w in ("vwfS", "vwfWS", "vfWS")
                    for fl in (False, True)], symbolic=False, cases=120)
def row_chan_average_mixed(v, what, flagged):
    """bounded: weights per row together with flags and sigma spectrum"""
    row_chan_average(v, what, flagged)


@P.contract(params=[dict(fr=a, fl=b) for a in (False, True)
                    for b in (False, True)], symbolic=False)
def merge_flags(v, fr, fl):
    """bounded: a row is flagged exactly when all its samples are; a
    contradicting flag_row is refused"""
    f = v.fn(T + "merge_flags")
    nr, nf, nc = v.dim("nr"), v.dim("nf", 1), v.dim("nc", 1)
    flag = v.array("flag", (nr, nf, nc), bool) if fl else None
    if fl and v.rng.integers(0, 2):
        flag = flag.copy()
        for r in range(nr):
            if v.rng.integers(0, 2):
                flag[r] = True
    row = v.array("flag_row", (nr,), "u1", lo=0, hi=2) if fr else None
    full = flag.all(axis=(1, 2)) if fl else None
    if fr and fl:
        if v.rng.integers(0, 2):
            row = full.astype("u1")
        if (row.astype(bool) != full).any():
            v.raises("mismatch", ValueError, lambda: f(row, flag))
            return
    out = f(row, flag)
    if not fr and not fl:
        v.ensure("nothing", out is None)
        return
    v.all_eq("flag_row", out, (nr,), lambda r: row[r] if fr else full[r])


def bins(v, dup=False):
    """rows of some baselines at some times, in any order"""
    import numpy as np
    nt, nb = v.dim("nt", 1), v.dim("nbl", 1)
    k = v.choice([1, 2, 4])
    times = np.cumsum(v.array("dt", (nt,), "i4", lo=1, hi=k + 1)) * 1.0
    bls = [(p, q) for p in range(3) for q in range(p, 3)]
    pick = v.rng.permutation(len(bls))[:nb]
    have = v.rng.integers(0, 4, (nt, nb)) > 0
    have[v.rng.integers(0, nt), v.rng.integers(0, nb)] = True
    rw = [(t, b) for t in range(nt) for b in range(nb) if have[t, b]]
    if dup:
        rw.append(rw[v.rng.integers(0, len(rw))])
    if v.rng.integers(0, 2):
        rw = [rw[i] for i in v.rng.permutation(len(rw))]
    time = np.array([times[t] for t, _ in rw])
    a1 = np.array([bls[pick[b]][0] for _, b in rw], np.int32)
    a2 = np.array([bls[pick[b]][1] for _, b in rw], np.int32)
    iv = np.array([v.choice([1.0, 0.5, 2.0]) for _ in rw]) \
        if v.rng.integers(0, 2) else np.ones(len(rw))
    fr = v.rng.integers(0, 2, len(rw)).astype("u1")
    return time, iv, a1, a2, fr, v.choice([1.0, 2.0, 2.5, 4.0, 100.0])


def groups(m):
    out = {}
    for r, o in enumerate(m.tolist()):
        out.setdefault(o, []).append(r)
    return out


def extent(time, iv, rws):
    rws = sorted(rws, key=lambda r: time[r])
    a, b = rws[0], rws[-1]
    return time[b] + iv[b] * 0.5 - (time[a] - iv[a] * 0.5)


@P.contract(params=[dict(flagged=f) for f in (False, True)], symbolic=False,
            cases=150)
def row_mapper(v, flagged):
    """bounded: every row belongs to one bin of its own baseline; bins hold
    consecutive samples, span at most time_bin_secs, are ordered by time then
    baseline and carry mean time, summed interval and joint flag; the first
    bin of a baseline is not closed early"""
    f = v.fn(M + "row_mapper")
    time, iv, a1, a2, fr, secs = bins(v)
    args = [x.copy() for x in (time, iv, a1, a2, fr)]
    out = f(*args[:4], flag_row=args[4] if flagged else None,
            time_bin_secs=secs)
    for x, y in zip(args, (time, iv, a1, a2, fr)):
        v.ensure("inputs unchanged", (x == y).all())
    g = groups(out.map)
    v.ensure("one entry per row", out.map.shape == time.shape)
    v.ensure("no empty bin", sorted(g) == list(range(len(out.time))))
    v.ensure("flag given as asked", (out.flag_row is None) == (not flagged))
    key = []
    for o in sorted(g):
        rws = g[o]
        bl = {(a1[r], a2[r]) for r in rws}
        v.ensure("one baseline per bin", len(bl) == 1)
        v.eq("time", out.time[o], sum(time[r] for r in rws) / len(rws))
        v.eq("interval", out.interval[o], sum(iv[r] for r in rws))
        if flagged:
            v.ensure("flag", bool(out.flag_row[o]) == all(
                fr[r] for r in rws))
        key.append((out.time[o], list(bl)[0]))
        if len(rws) > 1:
            v.ensure("extent", extent(time, iv, rws) <= secs + 1e-9)
    v.ensure("order", [k[0] for k in key] == sorted(k[0] for k in key))
    for b in {k[1] for k in key}:
        rws = sorted((r for r in range(len(time))
                      if (a1[r], a2[r]) == b), key=lambda r: time[r])
        os = [int(out.map[r]) for r in rws]
        v.ensure("consecutive", os == sorted(os))
        first = [r for r in rws if out.map[r] == os[0]]
        if len(first) < len(rws):
            v.ensure("first bin is full", extent(
                time, iv, first + [rws[len(first)]]) > secs - 1e-9)


@P.contract(symbolic=False, cases=150, finding="row_mapper never moves the "
            "lower edge of a bin when a full bin is closed, so from the "
            "second bin of a baseline on every sample gets a bin of its own "
            "(e.g. times 1..6, interval 1, time_bin_secs 2 gives bins "
            "{1,2},{3},{4},{5},{6})")
def row_mapper_maximal(v):
    """bounded: no bin is closed while the next sample would still fit"""
    f = v.fn(M + "row_mapper")
    time, iv, a1, a2, fr, secs = bins(v)
    out = f(time, iv, a1, a2, time_bin_secs=secs)
    for b in set(zip(a1.tolist(), a2.tolist())):
        rws = sorted((r for r in range(len(time))
                      if (a1[r], a2[r]) == b), key=lambda r: time[r])
        for i in range(len(rws) - 1):
            o = out.map[rws[i]]
            if out.map[rws[i + 1]] != o:
                cur = [r for r in rws if out.map[r] == o]
                v.ensure("bin is full", extent(
                    time, iv, cur + [rws[i + 1]]) > secs - 1e-9)


@P.contract(symbolic=False)
def row_mapper_duplicates(v):
    """bounded: duplicate (time, baseline) rows are refused"""
    f = v.fn(M + "row_mapper")
    time, iv, a1, a2, fr, secs = bins(v, dup=True)
    v.raises("duplicate", ValueError, lambda: f(
        time, iv, a1, a2, time_bin_secs=secs))


ROW = ["time_centroid", "exposure", "uvw", "weight", "sigma"]
CHAN = ["chan_freq", "chan_width", "effective_bw", "resolution"]
RC = ["vis", "flag", "weight_spectrum", "sigma_spectrum"]


def everything(v):
    import numpy as np
    time, iv, a1, a2, fr, secs = bins(v)
    nr, nf, nc = len(time), v.dim("nf", 1), v.dim("nc", 1)
    size = v.int("size", 1, nf + 1)

    def r(*s):
        return v.rng.uniform(0.5, 2.0, s)
    data = dict(time_centroid=r(nr), exposure=r(nr), uvw=r(nr, 3),
                weight=r(nr, nc), sigma=r(nr, nc), chan_freq=r(nf),
                chan_width=r(nf), effective_bw=r(nf), resolution=r(nf),
                vis=r(nr, nf, nc) + 1j * r(nr, nf, nc),
                flag=v.rng.integers(0, 2, (nr, nf, nc)).astype(bool),
                weight_spectrum=r(nr, nf, nc), sigma_spectrum=r(nr, nf, nc))
    for k in range(nr):
        if fr[k]:
            data["flag"][k] = True
        elif data["flag"][k].all():
            data["flag"][k, 0, 0] = False
    if v.rng.integers(0, 3) == 0:
        for k in list(data):
            if v.rng.integers(0, 2):
                data[k] = None
    if v.rng.integers(0, 5) == 0:
        keep = sorted(data)[int(v.rng.integers(0, len(data)))]
        data = {k: x if k == keep else None for k, x in data.items()}
    frow = fr if v.rng.integers(0, 2) else None
    return (time, iv, a1, a2), frow, data, secs, size, nf, fr


@P.contract(symbolic=False, cases=120)
def composition(v):
    """bounded: time_and_channel is the row and channel maps of the merged
    flags followed by the three averages"""
    f = v.fn(T + "time_and_channel")
    base, frow, data, secs, size, nf, fr = everything(v)
    out = f(*base, flag_row=frow, time_bin_secs=secs, chan_bin_size=size,
            **data)
    flags = frow if data["flag"] is None else fr
    meta = v.fn(M + "row_mapper")(*base, flag_row=flags, time_bin_secs=secs)
    cm = v.fn(M + "channel_mapper")(nf, size)
    a = v.fn(T + "row_average")(meta, base[2], base[3], flag_row=flags,
                                **{k: data[k] for k in ROW})
    b = v.fn(T + "chan_average")(cm, **{k: data[k] for k in CHAN})
    c = v.fn(T + "row_chan_average")(
        meta, cm, flag_row=flags, weight=data["weight"],
        **{k: data[k] for k in RC})
    for names, x in ((["time", "interval", "flag_row"], meta),
                     (["antenna1", "antenna2"] + ROW, a), (CHAN, b),
                     (RC, c)):
        for n in names:
            same(v, n, getattr(out, n), getattr(x, n))


def same(v, n, x, y):
    v.ensure("%s present" % n, (x is None) == (y is None))
    if x is not None:
        v.ensure("%s shape" % n, numpy.shape(x) == numpy.shape(y))
        v.ensure("%s equal" % n, numpy.allclose(x, y, 1e-12, 1e-14))


@P.contract(symbolic=False, cases=25, thorough=200)
def lazy(v):
    """bounded: the lazy version averages each row and channel chunk as the
    eager one does"""
    import dask.array as da
    f = v.fn(T + "time_and_channel")
    g = v.fn("africanus.averaging.dask:time_and_channel")
    base, frow, data, secs, size, nf, fr = everything(v)
    nr = len(base[0])

    def cut(n):
        k = int(v.rng.integers(0, n + 1))
        return tuple(x for x in (k, n - k) if x)
    rc, cc = cut(nr), cut(nf)

    def dk(x, k):
        ch = (rc,) if k not in CHAN else (cc,)
        if k in RC:
            ch = (rc, cc)
        return da.from_array(x, chunks=ch + tuple(
            (s,) for s in x.shape[len(ch):]))
    lz = g(*[dk(x, "time") for x in base],
           flag_row=None if frow is None else dk(frow, "time"),
           time_bin_secs=secs, chan_bin_size=size,
           **{k: None if x is None else dk(x, k) for k, x in data.items()})
    names = ["time", "interval", "flag_row", "antenna1",
             "antenna2"] + ROW + CHAN + RC
    parts = {n: [] for n in names}
    r0 = 0
    flags = frow if data["flag"] is None else fr
    for nr_ in rc:
        rs = slice(r0, r0 + nr_)
        r0 += nr_
        c0 = 0
        cols = {n: [] for n in names}
        for nc_ in cc:
            cs = slice(c0, c0 + nc_)
            c0 += nc_

            def cut_(x, k):
                if x is None:
                    return None
                return x[rs, cs] if k in RC else x[cs] if k in CHAN else x[rs]
            d = {k: cut_(x, k) for k, x in data.items()}
            fl = None if flags is None else flags[rs]
            meta = v.fn(M + "row_mapper")(*[x[rs] for x in base],
                                          flag_row=fl, time_bin_secs=secs)
            cm = v.fn(M + "channel_mapper")(nc_, size)
            a = v.fn(T + "row_average")(
                meta, base[2][rs], base[3][rs], flag_row=fl,
                **{k: d[k] for k in ROW})
            b = v.fn(T + "chan_average")(cm, **{k: d[k] for k in CHAN})
            c = v.fn(T + "row_chan_average")(
                meta, cm, flag_row=fl, weight=d["weight"],
                **{k: d[k] for k in RC})
            for n in names:
                cols[n].append(getattr(
                    meta if n in OUT else b if n in CHAN else
                    c if n in RC else a, n))
        for n in names:
            parts[n].append(None if cols[n][0] is None else
                            numpy.concatenate(cols[n], 1) if n in RC else
                            numpy.concatenate(cols[n]) if n in CHAN else
                            cols[n][0])
    for n in names:
        want = parts[n][0] if n in CHAN or parts[n][0] is None else \
            numpy.concatenate(parts[n])
        got = getattr(lz, n)
        v.ensure("%s present" % n, (got is None) == (want is None))
        if got is None:
            continue
        if n in CHAN or n in RC:
            ax = 0 if n in CHAN else 1
            v.ensure("%s declared chunks" % n, got.chunks[ax] == tuple(
                -(-c // size) for c in cc))
        same(v, n, got.compute(scheduler="sync"), want)
