"""Chunk aggregation and correlation shapes."""
from pyvc.registry import Prop

P = Prop("C22", ["the number of dimensions (1..3) and of input chunks (1..5, "
                 "and up to 10 in the bounded part) is enumerated, the chunk "
                 "sizes and limits are arbitrary"])
MOD = "africanus.util.shapes:"


def pre(acc, xs):
    out = [0]
    for x in xs:
        out.append(out[-1] + x)
    return out


def aggregation(v, chunks, maxs, out):
    """out is the greedy aggregation of chunks under maxs"""
    nd, n = len(chunks), len(chunks[0])
    v.ensure("one result per dimension", len(out) == nd)
    k = len(out[0])
    v.ensure("same number of chunks per dimension",
             all(len(o) == k for o in out))
    v.ensure("between one and n chunks", 1 <= k <= n)
    cin = [pre(0, c) for c in chunks]
    cout = [pre(0, o) for o in out]
    for d in range(nd):
        v.eq("total length kept in dim %d" % d, cout[d][-1], cin[d][-1])
    # group boundaries: output chunk j ends at one input boundary, the same
    # in every dimension
    start = [0] * nd
    for j in range(k):
        for d in range(nd):
            v.ensure("no empty chunk", out[d][j] >= 1)
        hit = [v.and_(*[cout[d][j + 1] == cin[d][i] for d in range(nd)])
               for i in range(1, n + 1)]
        v.ensure("chunk %d ends at a common input boundary" % j, v.or_(*hit))
        # within the limit unless it is a single input chunk
        single = v.or_(*[v.and_(cout[d][j] == cin[d][i], out[d][j] ==
                                chunks[d][i])
                         for d in [0] for i in range(n)])
        v.ensure("chunk %d within the limits" % j, v.or_(
            single, v.and_(*[out[d][j] <= maxs[d] for d in range(nd)])))
        if j + 1 < k:
            # the next input chunk would not have fitted
            for i in range(n):
                at = cin[0][i] == cout[0][j + 1]
                v.ensure("chunk %d is maximal" % j, v.implies(at, v.or_(
                    *[out[d][j] + chunks[d][i] > maxs[d]
                      for d in range(nd)])))


@P.contract(params=[dict(nd=d, n=n) for d in (1, 2, 3) for n in (1, 2, 3, 4)
                    if d * n <= 8])
def aggregate(v, nd, n):
    """aggregated chunks keep the total, never split or straddle an input
    chunk, group every dimension alike, respect the limit and are maximal"""
    f = v.fn(MOD + "aggregate_chunks")
    chunks = tuple(tuple(v.dim("c%d_%d" % (d, i), 1) for i in range(n))
                   for d in range(nd))
    maxs = tuple(v.dim("m%d" % d, 1) for d in range(nd))
    if nd == 1:
        out = (f(chunks[0], maxs[0]),)
    else:
        out = f(chunks, maxs)
    aggregation(v, chunks, maxs, out)


@P.contract(params=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def aggregate_seq(v, n):
    """a one element sequence of limits gives the plain tuple as well"""
    f = v.fn(MOD + "aggregate_chunks")
    chunks = tuple(v.dim("c%d" % i, 1) for i in range(n))
    m = v.dim("m", 1)
    out = (f((chunks,), (m,)),)
    aggregation(v, (chunks,), (m,), out)


@P.contract(params=[dict(nd=d, n=n) for d in (1, 2, 3) for n in (6, 10)],
            symbolic=False, small=7, cases=150)
def aggregate_long(v, nd, n):
    """bounded: longer chunk sequences"""
    aggregate(v, nd, n)


@P.contract(params=[dict(case=c) for c in range(3)])
def aggregate_rejects(v, case):
    """mismatched sequences are refused"""
    f = v.fn(MOD + "aggregate_chunks")
    c = [v.dim("c%d" % i, 1) for i in range(5)]
    m = [v.dim("m%d" % i, 1) for i in range(3)]
    bad = [(((c[0], c[1]), (c[2],)), (m[0], m[1])),
           (((c[0], c[1]), (c[2], c[3])), (m[0], m[1], m[2])),
           (((c[0],), (c[2], c[3])), (m[0], m[1]))][case]
    v.raises("mismatch", ValueError, lambda: f(*bad))


@P.contract()
def corr_shape(v):
    """flat: (n,); matrix: (1,), (2,), (2, 2); anything else is refused"""
    f = v.fn(MOD + "corr_shape")
    n = v.int("ncorr")
    r = f(n, "flat")
    v.ensure("flat length", len(r) == 1)
    v.eq("flat", r[0], n)
    v.assume(v.and_(n != 1, n != 2, n != 4))
    v.raises("matrix", ValueError, lambda: f(n, "matrix"))
    v.raises("kind", ValueError, lambda: f(n, "other"))


@P.contract(params=[dict(n=1, want=(1,)), dict(n=2, want=(2,)),
                    dict(n=4, want=(2, 2))])
def corr_matrix(v, n, want):
    """the three matrix shapes"""
    r = v.fn(MOD + "corr_shape")(n, "matrix")
    v.ensure("shape", tuple(r) == want)
