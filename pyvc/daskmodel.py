"""Assumed contract of dask.array.blockwise and of the few Array attributes the
wrappers use, stated over blocks of symbolic size.  The number of blocks per
dimension is concrete; block sizes and block contents are symbolic."""
import itertools
import types as pytypes
import numpy as np
from . import terms as t
from . import sym
from . import arrays as A
from .sym import SV, Unsupported, lift


class DArr(sym.SArr):
    """model of dask.array.Array"""
    __array_ufunc__ = None

    def __init__(self, chunks, blocks, dtype):
        self.chunks = tuple(tuple(c) for c in chunks)
        self.blocks_ = blocks
        self.dtype = np.dtype(dtype) if dtype is not None else None
        self.name = "darr-%d" % id(self)

    @property
    def ndim(self):
        return len(self.chunks)

    @property
    def numblocks(self):
        return tuple(len(c) for c in self.chunks)

    @property
    def npartitions(self):
        return int(np.prod(self.numblocks))

    @property
    def shape(self):
        return tuple(_tot(c) for c in self.chunks)

    @property
    def vshape(self):
        return tuple(A.dimterm(s) for s in self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    def __len__(self):
        s = self.shape[0]
        return s if isinstance(s, int) else s.__index__()

    def __hash__(self):
        return id(self)

    def sum(self, axis=None, split_every=None, **kw):
        if axis is None:
            axis = list(range(self.ndim))
        if isinstance(axis, (int, np.integer)):
            axis = [axis]
        axis = sorted(int(a) % self.ndim for a in axis)
        keep = [k for k in range(self.ndim) if k not in axis]
        out = {}
        for b, x in self.blocks_.items():
            kb = tuple(b[k] for k in keep)
            y = x
            for a in reversed(axis):
                y = y.sum(axis=a)
            out[kb] = y if kb not in out else out[kb] + y
        return DArr([self.chunks[k] for k in keep], out, self.dtype)

    def _map(self, f, dt):
        return DArr(self.chunks, {b: f(x) for b, x in self.blocks_.items()},
                    dt)

    @property
    def real(self):
        dt = np.empty(0, self.dtype).real.dtype
        return self._map(lambda x: x.real, dt)

    @property
    def imag(self):
        dt = np.empty(0, self.dtype).real.dtype
        return self._map(lambda x: x.imag, dt)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("dask Array attribute %s" % n)

    def __getitem__(self, k):
        raise Unsupported("indexing a dask array")

    def compute(self, *a, **k):
        raise Unsupported("dask compute inside the code")


def _tot(c):
    s = 0
    for x in c:
        s = x + s
    return s


def _same(a, b):
    return len(a) == len(b) and all(
        A.dimterm(x) is A.dimterm(y) or t.eq(A.dimterm(x), A.dimterm(y)) is
        t.TRUE for x, y in zip(a, b))


def blockwise(func, out_ind, *args, **kw):
    for k in ("name", "token", "dtype", "adjust_chunks", "new_axes",
              "align_arrays", "concatenate", "meta"):
        kw.setdefault(k, None)
    kw.pop("name"), kw.pop("token"), kw.pop("meta")
    dtype = kw.pop("dtype")
    adjust = kw.pop("adjust_chunks") or {}
    new_axes = kw.pop("new_axes") or {}
    align = kw.pop("align_arrays")
    concat = kw.pop("concatenate")
    out_ind = tuple(out_ind)
    pairs = [(args[k], args[k + 1]) for k in range(0, len(args), 2)]
    chunkss = {}
    for a, ind in pairs:
        if ind is None:
            continue
        if not isinstance(a, DArr):
            raise Unsupported("blockwise over %s" % type(a).__name__)
        ind = tuple(ind)
        if len(ind) != a.ndim:
            raise ValueError("Index string %s does not match array dimension "
                             "%d" % (ind, a.ndim))
        for c, i in zip(a.chunks, ind):
            one = len(c) == 1 and A.dimterm(c[0]) is t.I(1)
            if i not in chunkss:
                chunkss[i] = c
            elif align is False:
                if len(c) > len(chunkss[i]):
                    chunkss[i] = c
            elif not _same(c, chunkss[i]):
                p = chunkss[i]
                if len(p) == 1 and A.dimterm(p[0]) is t.I(1):
                    chunkss[i] = c
                elif not one:
                    raise Unsupported("blockwise would rechunk index %s" % i)
    for k, v in new_axes.items():
        chunkss[k] = tuple(v) if isinstance(v, tuple) else (v,)
    nb = {i: len(c) for i, c in chunkss.items()}
    for i in out_ind:
        if i not in nb:
            raise KeyError("unknown output index %s" % (i,))
    contracted = []
    for a, ind in pairs:
        for i in (ind or ()):
            if i not in out_ind and i not in contracted:
                contracted.append(i)
    blocks = {}
    for ob in itertools.product(*[range(nb[i]) for i in out_ind]):
        at = dict(zip(out_ind, ob))
        fargs = []
        for a, ind in pairs:
            if ind is None:
                fargs.append(a)
                continue

            def build(k, sofar, a=a, ind=tuple(ind)):
                if k == len(ind):
                    return a.blocks_[tuple(sofar)]
                i = ind[k]
                n = len(a.chunks[k])
                if i in at:
                    return build(k + 1, sofar + [at[i] if n > 1 else 0])
                rng = range(nb[i])
                return [build(k + 1, sofar + [j if n > 1 else 0])
                        for j in rng]
            x = build(0, [])
            if concat:
                def unwrap(x):
                    while isinstance(x, list):
                        if len(x) != 1:
                            raise Unsupported("blockwise concatenate")
                        x = x[0]
                    return x
                x = unwrap(x)
            fargs.append(x)
        blocks[ob] = func(*fargs, **kw)
    chunks = []
    for i in out_ind:
        c = chunkss[i]
        if i in adjust:
            ad = adjust[i]
            if callable(ad):
                c = tuple(ad(x) for x in c)
            elif isinstance(ad, tuple):
                if len(ad) != len(c):
                    raise ValueError("adjust_chunks")
                c = ad
            else:
                c = (ad,) * len(c)
        chunks.append(c)
    return DArr(chunks, blocks, dtype)


def result_type(*a):
    return np.result_type(*[x.dtype if isinstance(x, (sym.SArr, np.ndarray))
                            else x for x in a])


class _Mod(pytypes.ModuleType):
    def __init__(self, name, real=None, **kw):
        pytypes.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__") or self.__dict__["_real"] is None:
            raise AttributeError(n)
        if n in self.__dict__["_real"].__dict__ and isinstance(
                self.__dict__["_real"].__dict__[n], pytypes.ModuleType):
            return self.__dict__["_real"].__dict__[n]

        def f(*a, **k):
            raise Unsupported("dask.array.%s" % n)
        return f


def install(space):
    import dask
    import dask.array
    import dask.blockwise
    core = _Mod("dask.array.core", None, blockwise=blockwise, Array=DArr)
    arr = _Mod("dask.array", dask.array, blockwise=blockwise, core=core,
               Array=DArr, result_type=result_type)
    top = _Mod("dask", dask, array=arr)
    space.overrides.update({"dask": top, "dask.array": arr,
                            "dask.array.core": core})


def split(arr, sizes):
    """blocks of a symbolic array: sizes[k] is a list of chunk sizes or None"""
    chunks = []
    for k, s in enumerate(sizes):
        d = A.dimval(arr.vshape[k])
        chunks.append((d,) if s is None else tuple(s))
    offs = []
    for c in chunks:
        o, acc = [], 0
        for x in c:
            o.append(acc)
            acc = x + acc
        offs.append(o)
    blocks = {}
    for b in itertools.product(*[range(len(c)) for c in chunks]):
        # direct affine view: no bounds reasoning needed
        maps = []
        vsh = []
        for k, i in enumerate(b):
            maps.append(("aff", k, A.dimterm(offs[k][i]), 1))
            vsh.append(A.dimterm(chunks[k][i]))
        blocks[b] = A.Arr(arr.st, tuple(vsh), tuple(maps))
    return DArr(chunks, blocks, arr.dtype)
