"""Lazy (dask) wrappers against the contract of the function they apply.

Symbolically the applied function is replaced by its contract: every call must
get exactly the blocks of the arguments that belong together, and returns the
corresponding block of an arbitrary array R; the wrapper's result must then be
R, with the declared chunks matching the blocks.  What R is, is the eager
function's own contract.  Concretely both versions are run and compared."""


def lazy(v, wrapper, eager, args, sizes, out, call=None, tie=None, kw=None):
    """wrapper, eager: module:function; args: [(parameter, value, index
    names or None)]; sizes: index name -> chunk sizes; out: (index names,
    shape, dtype); tie: index name -> index name with the same blocks"""
    tie = tie or {}
    kw = kw or {}
    f = v.fn(wrapper)
    g = v.fn(eager)

    def dasked(x, names):
        if names is None or x is None:
            return x
        return v.dask(x, *[sizes.get(n) for n in names])
    dargs = [dasked(x, names) for p, x, names in args]
    if not v.symbolic:
        want = g(*[x for p, x, names in args], **kw)
        got = (call or f)(*dargs, **kw) if call is None else call(
            f, dargs, kw)
        v.ensure("declared shape", tuple(got.shape) == tuple(want.shape))
        v.ensure("declared dtype", got.dtype == want.dtype)
        res = v.compute(got)
        v.ensure("shape", tuple(res.shape) == tuple(want.shape))
        # every single block has its declared shape
        for idx in range(got.numblocks[0]):
            b = got.blocks[idx].compute(scheduler="sync")
            v.ensure("block rows", b.shape[0] == got.chunks[0][idx])
        v.all_eq("lazy", res, want.shape, lambda *i: want[i])
        return
    from pyvc import arrays as A
    onames, oshape, odtype = out
    R = v.array("R", oshape, odtype)
    RD = v.dask(R, *[sizes.get(n) for n in onames])
    params = [p for p, x, names in args]

    def stub(*bargs, **bkw):
        bound = dict(zip(params, bargs))
        for k, x in bkw.items():
            if k in params:
                bound[k] = x
        at = {}
        for p, x, names in args:
            if names is None or x is None:
                continue
            b = bound.get(p)
            if not hasattr(b, "vshape") or b.ndim != len(names):
                v.ensure("block of %s is an array" % p, False)
                return RD.blocks_[tuple(0 for _ in onames)]
            for k, n in enumerate(names):
                for j, c in enumerate(sizes.get(n) or ()):
                    if b.vshape[k] is A.dimterm(c):
                        at.setdefault(tie.get(n, n), j)
        for p, x, names in args:
            b = bound.get(p)
            if names is None or x is None:
                if isinstance(x, (str, int, float, bool, type(None))) and \
                        p in bound:
                    v.ensure("argument %s" % p, b == x)
                continue
            offs, sh = [], []
            for k, n in enumerate(names):
                cs = sizes.get(n)
                if cs is None:
                    offs.append(0)
                    sh.append(x.shape[k])
                    continue
                j = at.get(tie.get(n, n), 0)
                o = 0
                for c in cs[:j]:
                    o = c + o
                offs.append(o)
                sh.append(cs[j])
            if v.shape_is("block of %s" % p, b, tuple(sh)):
                v.each(tuple(sh), lambda *i: v.eq(
                    "block of %s" % p, b.at(*i), v.rd(
                        x, *[o + a for o, a in zip(offs, i)])))
        for k, x in kw.items():
            v.ensure("argument %s" % k, k in bkw and bkw[k] == x or
                     k in bound and bound[k] == x)
        return RD.blocks_[tuple(at.get(tie.get(n, n), 0) for n in onames)]
    mod = wrapper.split(":")[0]
    m = v.module(mod)
    hit = [n for n, val in vars(m).items() if val is g]
    for n in hit:
        v.use_contract(mod + ":" + n, stub)
    got = f(*dargs, **kw) if call is None else call(f, dargs, kw)
    v.ensure("declared dtype", got.dtype == odtype or str(
        got.dtype) == str(odtype))
    v.all_eq("lazy", got, oshape, lambda *i: v.rd(R, *i))
