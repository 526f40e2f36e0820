"""Symbolic arrays: symbolic shape, content as a function of index terms,
affine views, broadcasting elementwise operations, reductions."""
import numpy as np
from . import terms as t
from . import sym
from . import prove as pv
from .sym import (SV, SArr, Unsupported, ctx, lift, cast, s_add, s_mul,
                  s_where, can_lift)


class Storage(object):
    __slots__ = ("get", "shape", "dt", "name", "__weakref__", "owner",
                 "readonly", "borrowed")

    def __init__(self, shape, dt, get, name="tmp"):
        self.shape = tuple(shape)
        self.dt = np.dtype(dt)
        self.get = get
        self.name = name
        self.readonly = False
        self.borrowed = False     # input array (frame conditions)
        ctx().storages.append(self)


def dimterm(d):
    if isinstance(d, t.T):
        return d
    if isinstance(d, SV):
        if d.re.sort == "R":
            raise TypeError("float dimension")
        return d.re
    return t.I(int(d))


def dimval(d):
    return int(d.args[0]) if d.op == "c" else SV(d, None, np.dtype(np.int64),
                                                 True)


def same_dim(a, b):
    return a is b or t.eq(a, b) is t.TRUE


class Arr(SArr):
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, storage, vshape=None, maps=None, comp=None):
        self.st = storage
        self.comp = comp
        if vshape is None:
            vshape = storage.shape
            maps = [("aff", k, t.IZERO, 1) for k in range(len(vshape))]
        self.vshape = tuple(vshape)
        self.maps = maps

    # ------------------------------------------------------------ metadata
    @property
    def shape(self):
        return tuple(dimval(d) for d in self.vshape)

    @property
    def ndim(self):
        return len(self.vshape)

    @property
    def dtype(self):
        if self.comp is not None:
            return np.empty(0, self.st.dt).real.dtype
        return self.st.dt

    @property
    def size(self):
        return dimval(t.mul(t.IONE, *self.vshape))

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        class F(object):
            c_contiguous = True
            f_contiguous = False
            writeable = True

            def __getitem__(self, k):
                return True
        return F()

    @property
    def itemsize(self):
        return self.st.dt.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def __len__(self):
        return int(self.vshape[0].args[0]) if self.vshape[0].op == "c" else \
            SV(self.vshape[0]).__index__()

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "Arr(%s, %s, %s)" % (self.st.name, self.vshape, self.st.dt)

    def __format__(self, s):
        return repr(self)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        d = self.vshape[0]
        if d.op != "c":
            raise Unsupported("iteration over symbolic array dimension")
        for k in range(int(d.args[0])):
            yield self[k]

    # ------------------------------------------------------------ reading
    def getter(self):
        g = self.st.get
        maps = self.maps
        if self.comp is not None:
            g0, k = g, 0 if self.comp == "re" else 1

            def g(idx):
                return g0(idx)[k], None
        if all(m[0] == "aff" and m[1] == k and m[2] is t.IZERO and m[3] == 1
               for k, m in enumerate(maps)) and \
                len(maps) == len(self.vshape):
            return g

        def get(idx):
            s = []
            for m in maps:
                if m[0] == "fix":
                    s.append(m[1])
                else:
                    _, vd, st, step = m
                    x = idx[vd]
                    if step != 1:
                        x = t.mul(t.I(step), x)
                    s.append(t.add(st, x))
            return g(tuple(s))
        return get

    def at(self, *idx):
        """spec-level read: index terms -> SV"""
        idx = tuple(dimterm(i) for i in idx)
        assert len(idx) == self.ndim, (idx, self.vshape)
        re, im = self.getter()(idx)
        return SV(re, im, self.dtype)

    def item(self, *args):
        if args:
            return self[args]
        for d in self.vshape:
            if not (d.op == "c" and d.args[0] == 1):
                raise Unsupported("item() of a symbolic-size array")
        return self.at(*[0] * self.ndim)

    def __bool__(self):
        return bool(self.item())

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def __complex__(self):
        return complex(self.item())

    # ------------------------------------------------------------ indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nsrc = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (SArr, np.ndarray)) and k.ndim > 1 and \
                    k.dtype == bool:
                nsrc += k.ndim
            else:
                nsrc += 1
        if nsrc > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - nsrc))
            else:
                out.append(k)
        return out

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("structured array field")
        key = self._parse(key)
        if any(isinstance(k, (SArr, np.ndarray, list)) and
               not (isinstance(k, (SArr, np.ndarray)) and k.ndim == 0)
               for k in key):
            return self._fancy(key)
        v = self._view(key)
        if v.ndim == 0 and not any(k is None for k in key):
            if not any(isinstance(k, slice) for k in key):
                re, im = v.getter()(())
                return SV(re, im, self.dtype)
        return v

    def _norm_int(self, k, dim):
        if isinstance(k, (bool, np.bool_)):
            raise Unsupported("boolean scalar index")
        if isinstance(k, (float, np.floating)):
            raise IndexError("float index")
        v = lift(k)
        if v.re.sort != "I":
            raise IndexError("non-integer index")
        x = v.re
        if x.op == "c":
            if x.args[0] < 0:
                x = t.add(dim, x)
        elif ctx().entails(t.lt(x, t.IZERO), 500):
            x = t.add(dim, x)
        if x.op == "c" and dim.op == "c" and not (
                0 <= x.args[0] < dim.args[0]):
            raise IndexError("index %s is out of bounds for axis of size %s" %
                             (x, dim))
        ctx().oblige("bounds", t.and_(t.le(t.IZERO, x), t.lt(x, dim)),
                     "index %s within %s" % (x, self.st.name))
        return x

    def _norm_slice(self, k, dim):
        step = k.step
        if step is None:
            step = 1
        if isinstance(step, SV):
            step = step.__index__()
        step = int(step)
        if step == 0:
            raise ValueError("slice step cannot be zero")

        def bound(b, default):
            if b is None:
                return default, True
            v = lift(b)
            if v.re.sort != "I":
                raise TypeError("slice indices must be integers")
            x = v.re
            c = ctx()
            if x.op == "c":
                if x.args[0] < 0:
                    x = t.add(dim, x)
            elif c.entails(t.le(t.IZERO, x), 500):
                pass
            elif c.entails(t.lt(x, t.IZERO), 500):
                x = t.add(dim, x)
            else:
                x = t.ite(t.lt(x, t.IZERO), t.add(dim, x), x)
            return x, False
        c = ctx()
        if step > 0:
            lo, d1 = bound(k.start, t.IZERO)
            hi, d2 = bound(k.stop, dim)
            if not d1 and not c.entails(t.and_(t.le(t.IZERO, lo),
                                               t.le(lo, dim)), 500):
                lo = t.ite(t.lt(lo, t.IZERO), t.IZERO,
                           t.ite(t.lt(dim, lo), dim, lo))
            if not d2 and not c.entails(t.and_(t.le(t.IZERO, hi),
                                               t.le(hi, dim)), 500):
                hi = t.ite(t.lt(hi, t.IZERO), t.IZERO,
                           t.ite(t.lt(dim, hi), dim, hi))
            n = t.sub(hi, lo)
            if step > 1:
                n = t.idiv(t.add(n, t.I(step - 1)), t.I(step))
            if not (d1 and d2) and not c.entails(t.le(lo, hi), 500):
                n = t.ite(t.lt(lo, hi), n, t.IZERO)
            if n.op == "+":
                n = t.nfterm(n)
            return lo, n, step
        lo, d1 = bound(k.start, t.sub(dim, t.IONE))
        hi, d2 = bound(k.stop, t.I(-1))
        if not (d1 and d2):
            if lo.op == "c" and hi.op == "c" and dim.op == "c":
                rng = range(int(dim.args[0]))[slice(k.start, k.stop, step)]
                return t.I(rng.start), t.I(len(rng)), step
            raise Unsupported("negative-step slice with bounds")
        if step != -1:
            raise Unsupported("negative step")
        return lo, dim, step

    def _view(self, key):
        nsh = []
        # current view dim -> replacement
        repl = {}
        vd = 0
        for k in key:
            if k is None:
                nsh.append(t.IONE)
                continue
            dim = self.vshape[vd]
            if isinstance(k, slice):
                lo, n, step = self._norm_slice(k, dim)
                repl[vd] = ("aff", len(nsh), lo, step)
                nsh.append(n)
            else:
                repl[vd] = ("fix", self._norm_int(k, dim))
            vd += 1
        maps = []
        for m in self.maps:
            if m[0] == "fix":
                maps.append(m)
                continue
            _, d, st, step = m
            r = repl[d]
            if r[0] == "fix":
                maps.append(("fix", t.add(st, t.mul(t.I(step), r[1]))))
            else:
                _, nd, lo, s2 = r
                maps.append(("aff", nd, t.add(st, t.mul(t.I(step), lo)),
                             step * s2))
        return Arr(self.st, nsh, maps, self.comp)

    def _fancy_plan(self, key):
        """classify index entries; boolean masks are not handled here"""
        arrs = []
        for k in key:
            if isinstance(k, list):
                k = np.asarray(k)
            if isinstance(k, np.ndarray):
                k = from_numpy(k)
            arrs.append(k)
        return arrs

    def _fancy(self, key):
        key = self._fancy_plan(key)
        for k in key:
            if isinstance(k, SArr) and k.dtype == bool:
                if len(key) == 1 or k.ndim == self.ndim:
                    return MaskedSel(self, k)
                raise Unsupported("boolean mask among other indices")
        g = self.getter()
        ivs = []       # (source dim, getter, ndim, shape)
        bsh = []
        for k in key:
            if isinstance(k, SArr):
                bsh = bshape(bsh, k.vshape)
        # order of result dims
        src = 0
        plan = []      # per source dim
        pos_first = None
        adjacent = True
        last = None
        res = []
        seq = 0
        for k in key:
            if k is None:
                res.append(("new",))
                seq += 1
                continue
            isadv = isinstance(k, SArr) or not isinstance(k, slice)
            if isadv:
                if pos_first is None:
                    pos_first = len(res)
                    last = seq
                else:
                    if seq != last + 1:
                        adjacent = False
                    last = seq
                plan.append(("adv", k))
            else:
                lo, n, step = self._norm_slice(k, self.vshape[src])
                plan.append(("sl", lo, n, step, len(res)))
                res.append(("sl", n))
            src += 1
            seq += 1
        ins = pos_first if adjacent else 0
        shape = []
        for j, r in enumerate(res):
            if j == ins:
                shape.extend(bsh)
            shape.append(t.IONE if r[0] == "new" else r[1])
        if ins >= len(res):
            shape.extend(bsh)
        nb = len(bsh)
        getters = []
        for d, p in enumerate(plan):
            if p[0] == "adv":
                k = p[1]
                if isinstance(k, SArr):
                    if k.dtype.kind not in "iu":
                        raise IndexError("arrays used as indices must be of "
                                         "integer type")
                    getters.append((k.getter(), k.vshape))
                    # bounds for a generic element
                    vs = [t.fresh("x", "I") for _ in k.vshape]
                    e = k.getter()(tuple(vs))[0]
                    rng = t.and_(*[t.and_(t.le(t.IZERO, v), t.lt(v, dd))
                                   for v, dd in zip(vs, k.vshape)])
                    ctx().oblige("bounds", t.implies(rng, t.and_(
                        t.le(t.IZERO, e), t.lt(e, self.vshape[d]))),
                        "fancy index within %s" % self.st.name)
                else:
                    x = self._norm_int(k, self.vshape[d])
                    getters.append(x)
            else:
                getters.append(None)

        def get(idx):
            bi = idx[ins:ins + nb]
            rest = idx[:ins] + idx[ins + nb:]
            s = []
            for p, gg in zip(plan, getters):
                if p[0] == "adv":
                    if isinstance(gg, t.T):
                        s.append(gg)
                    else:
                        kg, ksh = gg
                        s.append(kg(bidx(bi, ksh))[0])
                else:
                    _, lo, n, step, rpos = p
                    x = rest[rpos]
                    s.append(t.add(lo, t.mul(t.I(step), x)))
            return g(tuple(s))
        return Arr(Storage(shape, self.dtype, get))

    def __setitem__(self, key, val):
        if self.st.readonly:
            if self.st.readonly == "alias":
                raise Unsupported("write through a reshaped view")
            raise ValueError("assignment destination is read-only")
        key = self._parse(key)
        key = self._fancy_plan(key)
        if any(isinstance(k, SArr) and k.ndim > 0 for k in key):
            return self._set_fancy(key, val)
        self._view(key)._assign(val)

    def _set_fancy(self, key, val):
        if len(key) == 1 and key[0].dtype == bool or (
                len([k for k in key if isinstance(k, SArr)]) == 1 and
                key[0].dtype == bool and key[0].ndim <= self.ndim and
                all(isinstance(k, slice) and k == slice(None)
                    for k in key[1:])):
            m = key[0]
            if isinstance(val, MaskedSel):
                if val.mask is not m and not val.same_mask(m):
                    raise Unsupported("mask assignment from another mask")
                src = val.arr
                new = ew(s_where, expand_mask(m, self.ndim), src, self)
            else:
                if isinstance(val, SArr) and val.ndim > 0:
                    raise Unsupported("array assigned through a mask")
                new = ew(s_where, expand_mask(m, self.ndim), val, self)
            self._assign(new)
            return
        raise Unsupported("scatter through an index array")

    def _assign(self, val):
        st = self.st
        if st.readonly:
            if st.readonly == "alias":
                raise Unsupported("write through a reshaped view")
            raise ValueError("assignment destination is read-only")
        if isinstance(val, (list, tuple, np.ndarray)):
            val = from_numpy(np.asarray(val)) if not has_sym(val) else \
                from_nested(val)
        old = st.get
        maps, vshape = self.maps, self.vshape
        dt = self.dtype
        comp = self.comp
        if isinstance(val, SArr):
            shp = bshape(vshape, val.vshape, assign=True)
            vg = val.getter()
            vsh = val.vshape

            def value(vi):
                re, im = vg(bidx(vi, vsh))
                x = cast(SV(re, im, val.dtype), dt)
                return x.re, x.im
        else:
            if isinstance(val, MaskedSel):
                raise Unsupported("masked selection assigned without mask")
            x = cast(val, dt)
            if dt.kind in "iu" and dt.itemsize <= 2:
                ii = np.iinfo(dt)
                ctx().oblige("fits", t.and_(
                    t.le(t.I(int(ii.min)), x.re),
                    t.le(x.re, t.I(int(ii.max)))),
                    "value stored fits %s" % dt)

            def value(vi):
                return x.re, x.im
        full = all(m[0] == "aff" and m[2] is t.IZERO and m[3] == 1 and
                   same_dim(vshape[m[1]], d)
                   for m, d in zip(maps, st.shape))
        nv = len(vshape)

        def get(p):
            vi = [t.IZERO] * nv
            cond = []
            for k, (m, x) in enumerate(zip(maps, p)):
                if m[0] == "fix":
                    cond.append(t.eq(x, m[1]))
                else:
                    _, vd, s0, step = m
                    d = t.sub(x, s0)
                    if step == 1:
                        vi[vd] = d
                        if not full and not (
                                s0 is t.IZERO and
                                same_dim(vshape[vd], st.shape[k])):
                            cond.append(t.le(t.IZERO, d))
                            cond.append(t.lt(d, vshape[vd]))
                    elif step == -1:
                        vi[vd] = t.neg(d)
                        cond.append(t.le(t.IZERO, vi[vd]))
                        cond.append(t.lt(vi[vd], vshape[vd]))
                    else:
                        q = t.idiv(d, t.I(step))
                        cond.append(t.eq(t.mod(d, t.I(step)), t.IZERO))
                        cond.append(t.le(t.IZERO, q))
                        cond.append(t.lt(q, vshape[vd]))
                        vi[vd] = q
            c = t.and_(*cond)
            if c is t.FALSE:
                return old(p)
            vre, vim = value(tuple(vi))
            if comp is not None:
                ore, oim = old(p)
                if comp == "re":
                    return t.ite(c, vre, ore), oim
                return ore, t.ite(c, vre, oim)
            if c is t.TRUE:
                return vre, vim
            ore, oim = old(p)
            re = t.ite(c, vre, ore)
            im = None if vim is None else t.ite(c, vim, oim)
            return re, im
        st.get = get

    def fill(self, v):
        self._assign(v)

    # ------------------------------------------------------------ methods
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        nsh = [self.vshape[a] for a in axes]
        pos = {a: k for k, a in enumerate(axes)}
        maps = [m if m[0] == "fix" else ("aff", pos[m[1]], m[2], m[3])
                for m in self.maps]
        return Arr(self.st, nsh, maps, self.comp)

    def copy(self, order="C"):
        return Arr(Storage(self.vshape, self.dtype, self.getter()))

    def astype(self, dt, copy=True, **kw):
        dt = np.dtype(dt)
        if dt == self.dtype and not copy:
            return self
        return ew(lambda a: cast(a, dt), self)

    def view(self, *a):
        if a and a[0] is not None and not isinstance(a[0], type):
            raise Unsupported("view(dtype)")
        return self

    def conj(self):
        return ew(lambda a: a.conj(), self)

    conjugate = conj

    @property
    def real(self):
        if self.st.dt.kind != "c" or self.comp:
            return self
        return Arr(self.st, self.vshape, self.maps, "re")

    @property
    def imag(self):
        if self.st.dt.kind == "c" and not self.comp:
            return Arr(self.st, self.vshape, self.maps, "im")
        return ew(lambda a: a.imag, self)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a, **k):
        return reshape(self, (-1,))

    def flatten(self, *a, **k):
        r = reshape(self, (-1,))
        if r.st is self.st:
            return r.copy()
        r.st.readonly = False
        return r

    @property
    def flat(self):
        return reshape(self, (-1,))

    def __getattr__(self, n):
        if not n.startswith("__") and hasattr(np.ndarray, n):
            raise Unsupported("ndarray.%s" % n)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)

    def squeeze(self, axis=None):
        key = []
        for k, d in enumerate(self.vshape):
            if axis is None:
                drop = d.op == "c" and d.args[0] == 1
            else:
                drop = k == axis % self.ndim
            key.append(0 if drop else slice(None))
        return self._view(key)

    def sum(self, axis=None, **kw): return reduce_(self, "sum", axis, **kw)
    def min(self, axis=None, **kw): return reduce_(self, "min", axis, **kw)
    def max(self, axis=None, **kw): return reduce_(self, "max", axis, **kw)
    def all(self, axis=None, **kw): return reduce_(self, "all", axis, **kw)
    def any(self, axis=None, **kw): return reduce_(self, "any", axis, **kw)
    def prod(self, axis=None, **kw): return reduce_(self, "prod", axis, **kw)

    def mean(self, axis=None, **kw):
        s = reduce_(self, "sum", axis, **kw)
        ax = range(self.ndim) if axis is None else (
            (axis,) if isinstance(axis, int) else axis)
        n = t.mul(t.IONE, *[self.vshape[a] for a in ax])
        return s / SV(n, None, np.dtype(np.int64), True)

    def dot(self, o):
        return matmul(self, o)

    def tolist(self):
        if all(d.op == "c" for d in self.vshape):
            if self.ndim == 0:
                return self.item()
            return [x.tolist() if isinstance(x, SArr) else x for x in self]
        raise Unsupported("tolist of symbolic shape")

    # ------------------------------------------------------------ operators
    def _b(self, o, f, rev=False):
        if o is None or isinstance(o, str):
            return NotImplemented
        return ew(f, o, self) if rev else ew(f, self, o)

    def __add__(self, o): return self._b(o, sym.s_add)
    def __radd__(self, o): return self._b(o, sym.s_add, True)
    def __sub__(self, o): return self._b(o, sym.s_sub)
    def __rsub__(self, o): return self._b(o, sym.s_sub, True)
    def __mul__(self, o): return self._b(o, sym.s_mul)
    def __rmul__(self, o): return self._b(o, sym.s_mul, True)
    def __truediv__(self, o): return self._b(o, sym.s_div)
    def __rtruediv__(self, o): return self._b(o, sym.s_div, True)
    def __floordiv__(self, o): return self._b(o, sym.s_floordiv)
    def __rfloordiv__(self, o): return self._b(o, sym.s_floordiv, True)
    def __mod__(self, o): return self._b(o, sym.s_mod)
    def __pow__(self, o): return self._b(o, sym.s_pow)
    def __rpow__(self, o): return self._b(o, sym.s_pow, True)
    def __and__(self, o): return self._b(o, sym.s_band)
    def __or__(self, o): return self._b(o, sym.s_bor)
    def __xor__(self, o): return self._b(o, sym.s_bxor)
    __rand__, __ror__ = __and__, __or__
    def __lt__(self, o): return self._b(o, sym.s_lt)
    def __le__(self, o): return self._b(o, sym.s_le)
    def __gt__(self, o): return self._b(o, sym.s_gt)
    def __ge__(self, o): return self._b(o, sym.s_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._b(o, sym.s_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._b(o, sym.s_ne)

    def __neg__(self): return ew(lambda a: -a, self)
    def __pos__(self): return self
    def __invert__(self): return ew(lambda a: ~a, self)
    def __abs__(self): return ew(sym.s_abs, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _i(self, o, f):
        r = ew(f, self, o)
        if isinstance(r, SArr) and r.ndim > self.ndim:
            raise ValueError("non-broadcastable output operand")
        rk = r.dtype.kind
        if sym.KORD[rk] > sym.KORD[self.dtype.kind]:
            raise TypeError("Cannot cast ufunc output")
        self._assign(r)
        return self

    def __iadd__(self, o): return self._i(o, sym.s_add)
    def __isub__(self, o): return self._i(o, sym.s_sub)
    def __imul__(self, o): return self._i(o, sym.s_mul)
    def __itruediv__(self, o): return self._i(o, sym.s_div)
    def __iand__(self, o): return self._i(o, sym.s_band)
    def __ior__(self, o): return self._i(o, sym.s_bor)

    # NEP-18 for real numpy entry points used by third-party code
    def __array_function__(self, func, types, args, kwargs):
        from .npsym import TABLE
        f = TABLE.get(func.__name__)
        if f is None:
            raise Unsupported("numpy.%s on a symbolic array" % func.__name__)
        return f(*args, **kwargs)


class MaskedSel(object):
    """arr[mask]: elementwise results stay attached to the mask"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def same_mask(self, m):
        if m is self.mask:
            return True
        if len(m.vshape) != len(self.mask.vshape):
            return False
        vs = tuple(t.fresh("x", "I") for _ in m.vshape)
        a = m.getter()(vs)[0]
        b = self.mask.getter()(vs)[0]
        return a is b

    def _b(self, o, f, rev=False):
        if isinstance(o, MaskedSel):
            if not o.same_mask(self.mask):
                raise Unsupported("operands selected by different masks")
            o = o.arr
        r = ew(f, o, self.arr) if rev else ew(f, self.arr, o)
        return MaskedSel(r, self.mask)

    def __add__(self, o): return self._b(o, sym.s_add)
    def __radd__(self, o): return self._b(o, sym.s_add, True)
    def __sub__(self, o): return self._b(o, sym.s_sub)
    def __mul__(self, o): return self._b(o, sym.s_mul)
    def __rmul__(self, o): return self._b(o, sym.s_mul, True)
    def __truediv__(self, o): return self._b(o, sym.s_div)
    def __rtruediv__(self, o): return self._b(o, sym.s_div, True)

    def sum(self, *a, **k):
        return ew(s_where, expand_mask(self.mask, self.arr.ndim), self.arr,
                  0).sum()

    def __getattr__(self, n):
        raise Unsupported("masked selection .%s" % n)


def expand_mask(m, nd):
    while m.ndim < nd:
        m = m[(Ellipsis, None)]
    return m


# ---------------------------------------------------------------- helpers
def has_sym(x):
    if isinstance(x, (SV, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def from_numpy(a):
    a = np.asarray(a)
    if a.dtype.kind not in "biufc":
        raise Unsupported("object array")
    if a.size > 4096:
        raise Unsupported("large constant array")

    def get(idx):
        def pick(arr, idx):
            if not idx:
                x = lift(arr[()])
                return x.re, x.im
            k = idx[0]
            if k.op == "c":
                return pick(arr[int(k.args[0])], idx[1:])
            out = None
            for j in reversed(range(arr.shape[0])):
                v = pick(arr[j], idx[1:])
                if out is None:
                    out = v
                else:
                    c = t.eq(k, t.I(j))
                    out = (t.ite(c, v[0], out[0]),
                           None if v[1] is None else
                           t.ite(c, v[1], out[1]))
            return out
        return pick(a, idx)
    return Arr(Storage([t.I(s) for s in a.shape], a.dtype, get, "const"))


def from_nested(x, dtype=None):
    """np.array([...]) of (possibly symbolic) scalars / arrays"""
    def shp(y):
        if isinstance(y, (list, tuple)):
            if not y:
                return [t.IZERO]
            return [t.I(len(y))] + shp(y[0])
        if isinstance(y, SArr):
            return list(y.vshape)
        if isinstance(y, np.ndarray):
            return [t.I(s) for s in y.shape]
        return []
    shape = shp(x)

    def leaves(y):
        if isinstance(y, (list, tuple)):
            for z in y:
                yield from leaves(z)
        elif isinstance(y, (SArr, np.ndarray)):
            yield SV(t.IZERO, None, y.dtype) if y.dtype.kind != "b" else \
                SV(t.FALSE, None, y.dtype)
        else:
            yield lift(y)
    if dtype is None:
        dts = [(v.dt) for v in leaves(x)]
        dtype = np.result_type(*dts) if dts else np.dtype(float)
    dtype = np.dtype(dtype)

    def snap(y):
        if isinstance(y, (list, tuple)):
            return [snap(z) for z in y]
        if isinstance(y, np.ndarray):
            y = from_numpy(y)
        if isinstance(y, SArr):
            return (y.getter(), y.dtype)
        v = cast(y, dtype)
        return v
    sx = snap(x)

    def get(idx):
        def pick(y, idx):
            if isinstance(y, SV):
                return y.re, y.im
            if isinstance(y, tuple):
                re, im = y[0](idx)
                v = cast(SV(re, im, y[1]), dtype)
                return v.re, v.im
            k = idx[0]
            if k.op == "c":
                return pick(y[int(k.args[0])], idx[1:])
            out = None
            for j in reversed(range(len(y))):
                v = pick(y[j], idx[1:])
                if out is None:
                    out = v
                else:
                    c = t.eq(k, t.I(j))
                    out = (t.ite(c, v[0], out[0]), None if v[1] is None else
                           t.ite(c, v[1], out[1]))
            return out
        return pick(sx, idx)
    return Arr(Storage(shape, dtype, get))


def bdim(a, b, assign=False):
    if a is b:
        return a
    if b.op == "c" and b.args[0] == 1:
        return a
    if not assign and a.op == "c" and a.args[0] == 1:
        return b
    e = t.eq(a, b)
    if e is t.TRUE:
        return a
    if e is t.FALSE:
        raise ValueError("operands could not be broadcast together with "
                         "dimensions %s %s" % (a, b))
    c = ctx()
    if c.entails(e):
        return a if a.op == "c" else b if b.op == "c" else a
    c.oblige("shape", e, "dimension agreement %s = %s" % (a, b))
    c.facts.append(e)
    return a


def bshape(a, b, assign=False):
    a, b = list(a), list(b)
    n = max(len(a), len(b))
    if assign and len(b) > len(a):
        lead = b[:len(b) - len(a)]
        if not all(d.op == "c" and d.args[0] == 1 for d in lead):
            raise ValueError("could not broadcast input array")
        b = b[len(b) - len(a):]
        n = len(a)
    a = [t.IONE] * (n - len(a)) + a
    b = [t.IONE] * (n - len(b)) + b
    return [bdim(x, y, assign) for x, y in zip(a, b)]


def bidx(idx, shape):
    """index for an operand of given shape from a broadcast index"""
    k = len(idx) - len(shape)
    if k < 0:
        idx = (t.IZERO,) * (-k) + tuple(idx)
        k = 0
    return tuple(t.IZERO if (d.op == "c" and d.args[0] == 1) else i
                 for i, d in zip(idx[k:], shape))


def as_operand(a):
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray) and a.ndim > 0:
        return from_numpy(a)
    if isinstance(a, (list, tuple)):
        return from_nested(a) if has_sym(a) else from_numpy(np.asarray(a))
    if isinstance(a, MaskedSel):
        raise Unsupported("mixing a masked selection with a full array")
    return lift(a)


def ew(f, *args, dtype=None):
    for k, a in enumerate(args):
        if isinstance(a, MaskedSel):
            rest = list(args)
            m = a.mask
            for j, b in enumerate(rest):
                if isinstance(b, MaskedSel):
                    if not b.same_mask(m):
                        raise Unsupported("different masks")
                    rest[j] = b.arr
            return MaskedSel(ew(f, *rest), m)
    ops = [as_operand(a) for a in args]
    arrs = [a for a in ops if isinstance(a, SArr)]
    if not arrs:
        return f(*ops)
    shape = []
    for a in arrs:
        shape = bshape(shape, a.vshape)
    gs = []
    for a in ops:
        if isinstance(a, SArr):
            gs.append((a.getter(), a.vshape, a.dtype))
        else:
            gs.append(a)

    def val(idx):
        vs = []
        for g in gs:
            if isinstance(g, SV):
                vs.append(g)
            else:
                re, im = g[0](bidx(idx, g[1]))
                vs.append(SV(re, im, g[2]))
        return f(*vs)
    # result dtype from a probe
    probe = []
    for g in gs:
        if isinstance(g, SV):
            probe.append(g)
        else:
            probe.append(dummy(g[2]))
    n0 = len(ctx().obls)
    dt = f(*probe).dt
    del ctx().obls[n0:]

    def get(idx):
        v = val(idx)
        if v.dt != dt:
            v = cast(v, dt)
        return v.re, v.im
    return Arr(Storage(shape, dt, get))


_dummies = {}


def dummy(dt):
    dt = np.dtype(dt)
    k = dt.kind
    if k == "b":
        return SV(t.var("$db", "B"), None, dt)
    if k in "iu":
        return SV(t.var("$di", "I"), None, dt)
    if k == "f":
        return SV(t.var("$df", "R"), None, dt)
    if k == "c":
        return SV(t.var("$df", "R"), t.var("$dg", "R"), dt)
    raise Unsupported("dtype %s" % dt)


def new_input(name, shape, dtype):
    """uninterpreted input array"""
    dt = np.dtype(dtype)
    shape = [dimterm(d) for d in shape]
    st = Storage(shape, dt, content_fn(name, dt), name)
    st.borrowed = True
    return Arr(st)


def content_fn(name, dt):
    dt = np.dtype(dt)
    k = dt.kind
    if k == "c":
        return lambda idx: (t.app(name + ".re", idx, "R"),
                            t.app(name + ".im", idx, "R"))
    s = {"b": "B", "i": "I", "u": "I", "f": "R"}.get(k)
    if s is None:
        raise Unsupported("dtype %s" % dt)
    return lambda idx: (t.app(name, idx, s), None)


def const_arr(shape, value, dtype):
    dt = np.dtype(dtype)
    v = cast(value, dt)
    return Arr(Storage([dimterm(d) for d in shape], dt,
                       lambda idx: (v.re, v.im)))


def empty_arr(shape, dtype):
    dt = np.dtype(dtype)
    return Arr(Storage([dimterm(d) for d in shape], dt,
                       content_fn(t.fresh_name("garbage"), dt)))


def norm_shape(shape):
    if isinstance(shape, (int, np.integer, SV)):
        return (shape,)
    return tuple(shape)


def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(sorted(int(a) % nd for a in axis))


def reduce_(a, op, axis=None, dtype=None, out=None, keepdims=False,
            initial=None, where=None):
    if where is not None:
        raise Unsupported("reduction with where=")
    if isinstance(a, MaskedSel):
        if op == "sum":
            return a.sum()
        raise Unsupported("masked reduction")
    a = as_operand(a)
    if isinstance(a, SV):
        return a
    ax = norm_axes(axis, a.ndim)
    keep = [d for d in range(a.ndim) if d not in ax]
    g = a.getter()
    dt = a.dtype
    if op in ("all", "any"):
        rdt = np.dtype(bool)
    elif op in ("sum", "prod"):
        rdt = np.dtype(np.int64) if dt.kind in "bi" else dt
        if dtype is not None:
            rdt = np.dtype(dtype)
    else:
        rdt = dt
        for d in ax:
            if a.vshape[d].op == "c" and a.vshape[d].args[0] == 0:
                raise ValueError("zero-size array to reduction operation")
        ctx().oblige("nonempty", t.and_(*[t.lt(t.IZERO, a.vshape[d])
                                          for d in ax]),
                     "reduction %s over a non-empty axis" % op)
    sh = a.vshape

    def get(idx):
        full = [None] * a.ndim
        if keepdims:
            for d in keep:
                full[d] = idx[d]
        else:
            for d, i in zip(keep, idx):
                full[d] = i
        bvs = []
        for d in ax:
            if sh[d].op == "c" and sh[d].args[0] == 1:
                full[d] = t.IZERO
                continue
            b = t.fresh("r", "I")
            full[d] = b
            bvs.append((b, sh[d]))
        re, im = g(tuple(full))
        v = SV(re, im, dt)
        if op in ("all", "any"):
            c = sym.truth(v)
            for b, n in reversed(bvs):
                c = (t.forall if op == "all" else t.exists)(
                    b, t.IZERO, n, c)
            return c, None
        v = cast(v, rdt) if op in ("sum", "prod") else v
        if op == "sum":
            re, im = v.re, v.im
            for b, n in reversed(bvs):
                re = t.sum_(b, t.IZERO, n, re)
                im = None if im is None else t.sum_(b, t.IZERO, n, im)
            return re, im
        if op == "prod":
            if v.im is not None:
                raise Unsupported("complex product")
            re = v.re
            for b, n in reversed(bvs):
                re = t.binder("prod", b, t.IZERO, n, re)
            return re, None
        if v.im is not None:
            raise Unsupported("complex min/max")
        re = v.re
        for b, n in reversed(bvs):
            re = minmax(op, b, t.IZERO, n, re)
        return re, None
    if keepdims:
        rs = [sh[d] if d in keep else t.IONE for d in range(a.ndim)]
    else:
        rs = [sh[d] for d in keep]
    r = Arr(Storage(rs, rdt, get))
    if initial is not None:
        raise Unsupported("reduction with initial=")
    if not rs:
        r = r.item()
    if out is not None:
        out._assign(r)
        return out
    return r


def minmax(op, b, lo, hi, body):
    if lo.op == "c" and hi.op == "c":
        vals = [t.subst(body, {b: t.I(k)})
                for k in range(int(lo.args[0]), int(hi.args[0]))]
        if len(vals) <= 16:
            r = vals[0]
            for x in vals[1:]:
                r = t.ite(t.lt(x, r), x, r) if op == "min" else \
                    t.ite(t.lt(r, x), x, r)
            return r
    if body.sort == "I" and sym.CTX and t.is_app_of(body, b):
        # sorted: the extreme is the first or the last element
        facts = sym.ctx().facts + [t.le(lo, b), t.lt(b, hi)]
        for k in (lo, t.sub(hi, t.IONE)):
            x = t.subst(body, {b: k})
            if pv.entails(facts, t.le(x, body) if op == "min" else
                          t.le(body, x), 300) and pv.entails(
                              sym.ctx().facts, t.lt(lo, hi), 300):
                return x
    return t.binder(op, b, lo, hi, body)


def reshape(a, shape):
    shape = norm_shape(shape)
    nd = []
    neg = None
    for k, d in enumerate(shape):
        if isinstance(d, (int, np.integer)) and d == -1:
            neg = k
            nd.append(None)
        else:
            nd.append(dimterm(d))
    old = list(a.vshape)
    # common prefix / suffix cancel
    if neg is not None:
        known = [d for d in nd if d is not None]
        rest = list(old)
        ok = True
        for d in known:
            for r in rest:
                if same_dim(r, d):
                    rest.remove(r)
                    break
            else:
                ok = False
        if ok:
            nd[neg] = t.mul(t.IONE, *rest)
        else:
            tot = t.mul(t.IONE, *old)
            kn = t.mul(t.IONE, *known)
            if tot.op == "c" and kn.op == "c":
                nd[neg] = t.I(int(tot.args[0]) // int(kn.args[0]))
            else:
                x = t.idiv(tot, kn)
                q = None
                if kn.op == "c":
                    p = t.nf(tot)
                    k = kn.args[0]
                    if all((c / k).denominator == 1 for c in p.values()):
                        q = t.of_poly({m: c / k for m, c in p.items()}, "I")
                nd[neg] = q if q is not None else x
    tot1 = t.mul(t.IONE, *old)
    tot2 = t.mul(t.IONE, *nd)
    e = t.eq(tot1, tot2)
    if e is t.FALSE:
        raise ValueError("cannot reshape array")
    if e is not t.TRUE:
        ctx().oblige("shape", e, "reshape preserves the size")
    # pure insertion/removal of unit dims keeps a view
    o1 = [d for d in old if not (d.op == "c" and d.args[0] == 1)]
    n1 = [d for d in nd if not (d.op == "c" and d.args[0] == 1)]
    if len(o1) == len(n1) and all(same_dim(x, y) for x, y in zip(o1, n1)):
        key = []
        v = a._view([0 if (d.op == "c" and d.args[0] == 1) else slice(None)
                     for d in old])
        for d in nd:
            key.append(None if (d.op == "c" and d.args[0] == 1) else
                       slice(None))
        return v._view(key)
    # match blocks greedily
    g = a.getter()
    blocks = []
    i = j = 0
    while i < len(old) or j < len(nd):
        i0, j0 = i, j
        po = old[i] if i < len(old) else t.IONE
        pn = nd[j] if j < len(nd) else t.IONE
        i, j = min(i + 1, len(old)), min(j + 1, len(nd))
        while not same_dim(po, pn):
            grew = False
            if po.op == "c" and pn.op == "c":
                if po.args[0] < pn.args[0]:
                    if i >= len(old):
                        raise ValueError("reshape")
                    po = t.mul(po, old[i])
                    i += 1
                else:
                    if j >= len(nd):
                        raise ValueError("reshape")
                    pn = t.mul(pn, nd[j])
                    j += 1
                grew = True
            else:
                # divide: whichever has fewer factors
                if i < len(old) and (len(_factors(po)) <= len(_factors(pn))
                                     or j >= len(nd)):
                    po = t.mul(po, old[i])
                    i += 1
                    grew = True
                elif j < len(nd):
                    pn = t.mul(pn, nd[j])
                    j += 1
                    grew = True
            if not grew:
                raise Unsupported("reshape of symbolic dimensions")
        blocks.append((i0, i, j0, j))

    def get(idx):
        src = []
        for i0, i1, j0, j1 in blocks:
            if i1 - i0 == 1 and j1 - j0 == 1:
                src.append(idx[j0])
                continue
            if i1 - i0 == 0:
                continue
            flat = t.IZERO
            for k in range(j0, j1):
                flat = t.add(t.mul(flat, nd[k]), idx[k])
            dims = old[i0:i1]
            if len(dims) == 1:
                src.append(flat)
                continue
            out = []
            for d in reversed(dims[1:]):
                out.append(modq(flat, d))
                flat = divq(flat, d)
            out.append(flat)
            src.extend(reversed(out))
        return g(tuple(src))
    r = Arr(Storage(nd, a.dtype, get))
    r.st.readonly = "alias"
    return r


def _factors(x):
    return x.args if x.op == "*" else (x,)


def modq(x, d):
    return t.mod(x, d)


def divq(x, d):
    return t.idiv(x, d)


def matmul(a, b):
    a, b = as_operand(a), as_operand(b)
    if isinstance(a, SV) or isinstance(b, SV):
        return ew(s_mul, a, b)
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 2 and b.ndim == 1:
        return einsum("ij,j->i", a, b)
    if a.ndim == 1 and b.ndim == 2:
        return einsum("i,ij->j", a, b)
    if a.ndim == 2 and b.ndim == 2:
        return einsum("ij,jk->ik", a, b)
    if a.ndim == b.ndim:
        pre = "abcdefg"[:a.ndim - 2]
        return einsum("%sij,%sjk->%sik" % (pre, pre, pre), a, b)
    raise Unsupported("matmul ranks")


def einsum(spec, *ops, **kw):
    ops = [as_operand(o) for o in ops]
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (
        spec.replace(" ", ""), None)
    ins = ins.split(",")
    if any("." in i for i in ins):
        raise Unsupported("einsum ellipsis")
    if out is None:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum subscript mismatch")
        for c, d in zip(s, o.vshape):
            dims[c] = bdim(dims[c], d) if c in dims else d
    gs = [(o.getter(), o.vshape, o.dtype) for o in ops]
    dt = np.result_type(*[o.dtype for o in ops])
    summed = [c for c in dims if c not in out]

    def get(idx):
        env = dict(zip(out, idx))
        bvs = []
        for c in summed:
            b = t.fresh("e", "I")
            env[c] = b
            bvs.append((b, dims[c]))
        v = None
        for s, (g, sh, d) in zip(ins, gs):
            re, im = g(bidx(tuple(env[c] for c in s), sh))
            x = SV(re, im, d)
            v = x if v is None else s_mul(v, x)
        v = cast(v, dt)
        re, im = v.re, v.im
        for b, n in reversed(bvs):
            re = t.sum_(b, t.IZERO, n, re)
            im = None if im is None else t.sum_(b, t.IZERO, n, im)
        return re, im
    r = Arr(Storage([dims[c] for c in out], dt, get))
    return r if out else r.item()
