"""numpy / math / builtins seen by the instrumented code.  Calls without
symbolic arguments go to the real library."""
import builtins as _b
import math as _math
from fractions import Fraction
import numpy as np
from . import terms as t
from . import sym
from .sym import SV, SArr, Unsupported, ctx, lift, cast, can_lift
from . import arrays as A
from .arrays import ew, as_operand, from_nested, Arr, Storage, dimterm


def deep_sym(x):
    if isinstance(x, (SV, SArr, A.MaskedSel)):
        return True
    if isinstance(x, (list, tuple)):
        return any(deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y) for y in x.values())
    return False


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out._assign(r)
    return out


def _unary(name, f):
    def g(a, out=None, where=None, dtype=None, **kw):
        if where is not None and where is not True:
            raise Unsupported("ufunc where=")
        return _out(ew(f, a), out)
    TABLE[name] = g


def _binary(name, f):
    def g(a, b, out=None, where=None, dtype=None, **kw):
        if where is not None and where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out")
            return _out(ew(lambda c, x, y, o: sym.s_where(c, f(x, y), o),
                           where, a, b, out), out)
        return _out(ew(f, a, b), out)
    TABLE[name] = g


for _n in ("sin", "cos", "tan", "exp", "log", "log10", "log2", "arcsin",
           "arccos", "arctan", "sinh", "cosh", "tanh", "sqrt",
           "expm1", "log1p"):
    _unary(_n, (lambda n: lambda a: sym.s_app1(n, a))(_n))
def s_rint(a):
    """round half to even"""
    if a.im is not None:
        raise TypeError("rounding of complex")
    return SV(t.to_real(t.rint(t.to_real(a.re))), None, sym._fl(a.dt))


sym.s_rint = s_rint
for _n in ("round", "around", "rint"):
    _unary(_n, s_rint)
_unary("absolute", sym.s_abs)
_unary("abs", sym.s_abs)
_unary("fabs", sym.s_abs)
_unary("conj", lambda a: a.conj())
_unary("conjugate", lambda a: a.conj())
_unary("real", lambda a: a.real)
_unary("imag", lambda a: a.imag)
_unary("negative", lambda a: -a)
_unary("square", lambda a: a * a)
_unary("logical_not", lambda a: SV(t.not_(sym.truth(a)), None, np.dtype(bool)))
_unary("invert", lambda a: ~a)
_unary("isnan", lambda a: SV(t.FALSE, None, np.dtype(bool)))
_unary("isinf", lambda a: SV(t.FALSE, None, np.dtype(bool)))
_unary("isfinite", lambda a: SV(t.TRUE, None, np.dtype(bool)))
_unary("deg2rad", lambda a: a * (np.pi / 180.0))
_unary("radians", lambda a: a * (np.pi / 180.0))
_unary("rad2deg", lambda a: a * (180.0 / np.pi))
_unary("degrees", lambda a: a * (180.0 / np.pi))
_unary("angle", lambda a: sym.s_app2("arctan2", a.imag, a.real))


def s_floor(a):
    if a.im is not None:
        raise TypeError("floor of complex")
    return SV(t.to_real(t.floor(t.to_real(a.re))), None, sym._fl(a.dt))


def s_ceil(a):
    return SV(t.to_real(t.neg(t.floor(t.neg(t.to_real(a.re))))), None,
              sym._fl(a.dt))


def s_sign(a):
    z = t.const(0, a.re.sort)
    return SV(t.ite(t.lt(z, a.re), t.const(1, a.re.sort),
                    t.ite(t.lt(a.re, z), t.const(-1, a.re.sort), z)), None,
              a.dt)


_unary("floor", s_floor)
_unary("ceil", s_ceil)
_unary("sign", s_sign)
for _n, _f in (("add", sym.s_add), ("subtract", sym.s_sub),
               ("multiply", sym.s_mul), ("divide", sym.s_div),
               ("true_divide", sym.s_div), ("floor_divide", sym.s_floordiv),
               ("mod", sym.s_mod), ("remainder", sym.s_mod),
               ("power", sym.s_pow), ("minimum", sym.s_min),
               ("maximum", sym.s_max), ("fmin", sym.s_min),
               ("fmax", sym.s_max), ("less", sym.s_lt),
               ("less_equal", sym.s_le), ("greater", sym.s_gt),
               ("greater_equal", sym.s_ge), ("equal", sym.s_eq),
               ("not_equal", sym.s_ne), ("bitwise_and", sym.s_band),
               ("bitwise_or", sym.s_bor),
               ("logical_and", lambda a, b: SV(t.and_(sym.truth(a),
                                                      sym.truth(b)), None,
                                               np.dtype(bool))),
               ("logical_or", lambda a, b: SV(t.or_(sym.truth(a),
                                                    sym.truth(b)), None,
                                              np.dtype(bool))),
               ("logical_xor", lambda a, b: SV(t.not_(t.iff(
                   sym.truth(a), sym.truth(b))), None, np.dtype(bool))),
               ("arctan2", lambda a, b: sym.s_app2("arctan2", a, b)),
               ("hypot", lambda a, b: sym.s_app1(
                   "sqrt", sym.s_add(sym.s_mul(a, a), sym.s_mul(b, b))))):
    _binary(_n, _f)
for _n in ("sum", "min", "max", "all", "any", "prod", "amin", "amax"):
    TABLE[_n] = (lambda op: lambda a, axis=None, **kw: A.reduce_(
        as_operand(a) if not isinstance(a, A.MaskedSel) else a,
        op, axis, **{k: v for k, v in kw.items()
                     if v is not None}))({"amin": "min", "amax": "max"}.get(
                         _n, _n))
TABLE["product"] = TABLE["prod"]


@reg("mean")
def mean(a, axis=None, **kw):
    return as_operand(a).mean(axis)


@reg("zeros")
def zeros(shape, dtype=float, order="C", **kw):
    dtype = float if dtype is None else dtype
    dt = np.dtype(dtype)
    return A.const_arr(A.norm_shape(shape), False if dt.kind == "b" else 0, dt)


@reg("ones")
def ones(shape, dtype=float, order="C", **kw):
    dt = np.dtype(float if dtype is None else dtype)
    return A.const_arr(A.norm_shape(shape), True if dt.kind == "b" else 1, dt)


@reg("empty")
def empty(shape, dtype=float, order="C", **kw):
    return A.empty_arr(A.norm_shape(shape), float if dtype is None else dtype)


@reg("full")
def full(shape, fill_value, dtype=None, **kw):
    dt = lift(fill_value).dt if dtype is None else np.dtype(dtype)
    return A.const_arr(A.norm_shape(shape), fill_value, dt)


def _like(f):
    def g(a, dtype=None, shape=None, *args, **kw):
        a = as_operand(a)
        sh = a.vshape if shape is None else A.norm_shape(shape)
        return f(sh, dtype=a.dtype if dtype is None else dtype)
    return g


TABLE["zeros_like"] = _like(zeros)
TABLE["ones_like"] = _like(ones)
TABLE["empty_like"] = _like(empty)


@reg("full_like")
def full_like(a, fill_value, dtype=None, **kw):
    a = as_operand(a)
    return A.const_arr(a.vshape, fill_value,
                       a.dtype if dtype is None else dtype)


@reg("asarray", "asanyarray", "ascontiguousarray", "require",
     "asfortranarray", "atleast_1d")
def asarray(a, dtype=None, *args, **kw):
    if isinstance(a, SArr):
        if dtype is not None and np.dtype(dtype) != a.dtype:
            return a.astype(dtype)
        return a
    if isinstance(a, SV):
        v = a if dtype is None else cast(a, dtype)
        return Arr(Storage((), v.dt, lambda idx: (v.re, v.im)))
    return from_nested(a, dtype)


@reg("array")
def array(a, dtype=None, copy=True, **kw):
    r = asarray(a, dtype)
    return r.copy() if r is a else r


@reg("copy")
def copy_(a, **kw):
    return a.copy()


@reg("arange")
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if isinstance(step, SV) or step != 1:
        raise Unsupported("arange step")
    a, b = lift(start), lift(stop)
    if a.re.sort != "I" or b.re.sort != "I":
        raise Unsupported("arange of floats")
    dt = np.dtype(np.int64 if dtype is None else dtype)
    n = t.sub(b.re, a.re)
    if not ctx().entails(t.le(a.re, b.re)):
        n = t.ite(t.lt(a.re, b.re), n, t.IZERO)

    def get(idx):
        v = cast(SV(t.add(a.re, idx[0])), dt)
        return v.re, v.im
    return Arr(Storage((n,), dt, get))


@reg("linspace")
def linspace(start, stop, num=50, endpoint=True, **kw):
    if not endpoint or kw:
        raise Unsupported("linspace")
    n = dimterm(num)
    a, b = lift(start), lift(stop)
    ar, br = t.to_real(a.re), t.to_real(b.re)

    def get(idx):
        return t.add(ar, t.mul(t.to_real(idx[0]), t.div(
            t.sub(br, ar), t.to_real(t.sub(n, t.IONE))))), None
    return Arr(Storage((n,), np.dtype(float), get))


@reg("where")
def where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where with one argument")
    return ew(sym.s_where, c, *ab)


@reg("transpose")
def transpose(a, axes=None):
    return a.transpose(*(axes or ()))


@reg("reshape")
def reshape(a, shape, **kw):
    return as_operand(a).reshape(shape)


@reg("ravel")
def ravel(a, **kw):
    return as_operand(a).ravel()


@reg("squeeze")
def squeeze(a, axis=None):
    return a.squeeze(axis)


@reg("expand_dims")
def expand_dims(a, axis):
    k = [slice(None)] * (a.ndim + 1)
    k[axis] = None
    return a[tuple(k)]


@reg("dot", "matmul")
def dot(a, b, out=None):
    return _out(A.matmul(a, b), out)


@reg("vdot")
def vdot(a, b):
    return A.einsum("i,i->", as_operand(a).conj(), b)


@reg("outer")
def outer(a, b):
    return ew(sym.s_mul, as_operand(a)[:, None], as_operand(b)[None, :])


@reg("einsum")
def einsum(spec, *ops, **kw):
    return A.einsum(spec, *ops)


@reg("broadcast_to")
def broadcast_to(a, shape, **kw):
    a = as_operand(a)
    shape = [dimterm(d) for d in A.norm_shape(shape)]
    A.bshape(shape, a.vshape, assign=True)
    g, vs = a.getter(), a.vshape
    r = Arr(Storage(shape, a.dtype, lambda idx: g(A.bidx(idx, vs))))
    r.st.readonly = True
    return r


@reg("broadcast_arrays")
def broadcast_arrays(*arrs):
    arrs = [as_operand(a) for a in arrs]
    sh = []
    for a in arrs:
        sh = A.bshape(sh, a.vshape)
    return [broadcast_to(a, [A.dimval(d) for d in sh]) for a in arrs]


@reg("stack")
def stack(arrs, axis=0, out=None):
    arrs = [as_operand(a) for a in arrs]
    if len(arrs) == 0:
        raise ValueError("need at least one array to stack")
    arrs = [asarray(a) if isinstance(a, SV) else a for a in arrs]
    sh = list(arrs[0].vshape)
    for a in arrs[1:]:
        if a.ndim != len(sh):
            raise ValueError("all input arrays must have the same shape")
        for x, y in zip(sh, a.vshape):
            if not A.same_dim(x, y):
                if t.eq(x, y) is t.FALSE:
                    raise ValueError("all input arrays must have the same "
                                     "shape")
                ctx().oblige("shape", t.eq(x, y), "stack shapes")
    nd = len(sh) + 1
    axis = axis % nd
    dt = np.result_type(*[a.dtype for a in arrs])
    gs = [(a.getter(), a.dtype) for a in arrs]
    sh.insert(axis, t.I(len(arrs)))

    def get(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]

        def one(j):
            re, im = gs[j][0](rest)
            v = cast(SV(re, im, gs[j][1]), dt)
            return v.re, v.im
        if k.op == "c":
            return one(int(k.args[0]))
        out = None
        for j in reversed(range(len(gs))):
            v = one(j)
            out = v if out is None else (
                t.ite(t.eq(k, t.I(j)), v[0], out[0]),
                None if v[1] is None else
                t.ite(t.eq(k, t.I(j)), v[1], out[1]))
        return out
    return Arr(Storage(sh, dt, get))


@reg("concatenate")
def concatenate(arrs, axis=0, **kw):
    arrs = [as_operand(a) for a in arrs]
    nd = arrs[0].ndim
    axis = axis % nd
    sh = list(arrs[0].vshape)
    off = [t.IZERO]
    for a in arrs:
        for d in range(nd):
            if d != axis and not A.same_dim(sh[d], a.vshape[d]):
                ctx().oblige("shape", t.eq(sh[d], a.vshape[d]), "concatenate")
        off.append(t.add(off[-1], a.vshape[axis]))
    sh[axis] = off[-1]
    dt = np.result_type(*[a.dtype for a in arrs])
    gs = [(a.getter(), a.dtype) for a in arrs]

    def get(idx):
        out = None
        here = t.nfterm(idx[axis])
        for j in reversed(range(len(gs))):
            if here.op == "c" and off[j].op == "c" and \
                    off[j + 1].op == "c" and not \
                    off[j].args[0] <= here.args[0] < off[j + 1].args[0]:
                continue
            k = t.sub(idx[axis], off[j])
            re, im = gs[j][0](idx[:axis] + (k,) + idx[axis + 1:])
            v = cast(SV(re, im, gs[j][1]), dt)
            if out is None:
                out = (v.re, v.im)
            else:
                c = t.lt(idx[axis], off[j + 1])
                out = (t.ite(c, v.re, out[0]), None if v.im is None else
                       t.ite(c, v.im, out[1]))
        return out
    return Arr(Storage(sh, dt, get))


@reg("hstack")
def hstack(arrs, **kw):
    arrs = [asarray(a) for a in arrs]
    arrs = [a.reshape(1) if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


@reg("vstack")
def vstack(arrs, **kw):
    arrs = [asarray(a) for a in arrs]
    return concatenate([a[None, :] if a.ndim == 1 else a for a in arrs], 0)


@reg("roll")
def roll(a, shift, axis=None):
    a = asarray(a)
    if isinstance(shift, SV) and shift.is_const():
        shift = int(shift.re.args[0])
    if not isinstance(shift, (int, np.integer)):
        raise Unsupported("numpy.roll by a symbolic shift")
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("numpy.roll of a flattened array")
        axis = 0
    axis = axis % a.ndim
    n = a.vshape[axis]
    if n.op != "c":
        raise Unsupported("numpy.roll of a symbolic axis")
    n = int(n.args[0])
    k = int(shift) % n if n else 0
    if k == 0:
        return a.copy()
    pre = [slice(None)] * axis
    return concatenate([a[tuple(pre + [slice(n - k, n)])],
                        a[tuple(pre + [slice(0, n - k)])]], axis)


@reg("delete")
def delete(a, obj, axis=None):
    a = as_operand(a)
    if axis is None:
        a, axis = a.ravel(), 0
    n = a.vshape[axis % a.ndim]
    if isinstance(obj, SV) and obj.is_const():
        obj = int(obj.re.args[0])
    if not isinstance(obj, (int, np.integer)) or isinstance(obj, bool) or \
            n.op != "c":
        raise Unsupported("numpy.delete of symbolic position")
    k, n = int(obj), int(n.args[0])
    if not -n <= k < n:
        raise IndexError("delete out of bounds")
    k %= n
    pre = [slice(None)] * (axis % a.ndim)
    return concatenate([a[tuple(pre + [slice(0, k)])],
                        a[tuple(pre + [slice(k + 1, n)])]], axis)


@reg("tile")
def tile(a, reps):
    a = as_operand(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [A.dimterm(r) for r in reps]
    sh = list(a.vshape)
    nd = max(len(reps), len(sh))
    pad = nd - len(sh)
    reps = [t.IONE] * (nd - len(reps)) + reps
    sh = [t.IONE] * pad + sh
    g = a.getter()

    def get(idx):
        src = []
        for k in range(pad, nd):
            if sh[k] is t.IONE:
                src.append(t.IZERO)
            elif reps[k] is t.IONE:
                src.append(idx[k])
            else:
                src.append(t.mod(idx[k], sh[k]))
        return g(tuple(src))
    return Arr(Storage([t.mul(r, d) for r, d in zip(reps, sh)], a.dtype, get))


@reg("moveaxis")
def moveaxis(a, s, d):
    order = [k for k in range(a.ndim) if k != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


@reg("swapaxes")
def swapaxes(a, i, j):
    order = list(range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return a.transpose(*order)


@reg("shape")
def shape(a):
    return a.shape


@reg("ndim")
def ndim(a):
    return a.ndim


@reg("size")
def size(a):
    return a.size


@reg("iscomplexobj")
def iscomplexobj(a):
    return a.dtype.kind == "c"


@reg("iscomplex")
def iscomplex(a):
    return ew(lambda x: SV(t.ne(x.im, t.ZERO) if x.im is not None else
                           t.FALSE, None, np.dtype(bool)), a)


@reg("isscalar")
def isscalar(a):
    return isinstance(a, SV)


@reg("result_type")
def result_type(*args):
    out = []
    for a in args:
        if isinstance(a, (SArr, SV)):
            out.append(a.dtype)
        else:
            out.append(a)
    return np.result_type(*out)


@reg("clip")
def clip(a, lo, hi, out=None, **kw):
    r = a
    if lo is not None:
        r = ew(sym.s_max, r, lo)
    if hi is not None:
        r = ew(sym.s_min, r, hi)
    return _out(r, out)


@reg("flip")
def flip(a, axis=None):
    ax = A.norm_axes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if k in ax else slice(None)
                   for k in range(a.ndim))]


@reg("copyto")
def copyto(dst, src, **kw):
    dst._assign(src)


@reg("diff")
def diff(a, n=1, axis=-1):
    if n != 1:
        raise Unsupported("diff order")
    axis = axis % a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis], lo[axis] = slice(1, None), slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


@reg("nan_to_num")
def nan_to_num(a, **kw):
    return a


@reg("meshgrid")
def meshgrid(*xs, indexing="xy", **kw):
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = [as_operand(v) for v in xs]
    if indexing == "ij":
        sh = (A.dimval(x.vshape[0]), A.dimval(y.vshape[0]))
        return [broadcast_to(x[:, None], sh), broadcast_to(y[None, :], sh)]
    sh = (A.dimval(y.vshape[0]), A.dimval(x.vshape[0]))
    return [broadcast_to(x[None, :], sh), broadcast_to(y[:, None], sh)]


class NpType(object):
    """np.float64 & co: callable on symbolic values, otherwise the type"""


class _Wrapped(object):
    def __init__(self, name, real, f):
        self.__name__ = name
        self._real, self._f = real, f

    def __call__(self, *a, **k):
        if deep_sym(a) or deep_sym(k):
            return self._f(*a, **k)
        if self.__name__ in CREATORS and sym.CTX:
            r = self._real(*a, **k)
            if r.dtype.kind in "fcbiu":
                return self._f(*a, **k)
            return r
        return self._real(*a, **k)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __repr__(self):
        return "<np.%s>" % self.__name__

    def reduce(self, *a, **k):
        if deep_sym(a):
            raise Unsupported("ufunc.reduce")
        return self._real.reduce(*a, **k)

    def at(self, *a, **k):
        if deep_sym(a):
            raise Unsupported("ufunc.at")
        return self._real.at(*a, **k)


CREATORS = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like",
            "empty_like", "full_like"}

OLD = {"object": object, "float": float, "int": int, "bool": bool,
       "complex": complex, "str": str}


class NumpyProxy(object):
    """stands for the numpy module in instrumented code"""

    def __init__(self, symbolic=True):
        self.__dict__["_sym"] = symbolic
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        if n in OLD:
            r = OLD[n]
        elif n == "product":
            r = np.prod
        else:
            r = getattr(np, n)
        if self.__dict__["_sym"]:
            if n in TABLE:
                r = _Wrapped(n, r, TABLE[n])
            elif n in ("linalg", "fft", "random"):
                r = SubProxy("np." + n, r)
            elif callable(r) and not isinstance(r, type):
                r = _Wrapped(n, r, _unsup("numpy." + n))
        c[n] = r
        return r

    def __setattr__(self, k, v):
        raise Unsupported("assignment to numpy attribute")


def _unsup(n):
    def f(*a, **k):
        raise Unsupported("%s on symbolic arguments" % n)
    return f


class SubProxy(object):
    def __init__(self, name, real):
        self._n, self._r = name, real

    def __getattr__(self, n):
        r = getattr(self._r, n)
        if callable(r) and not isinstance(r, type):
            f = EXTRA.get(self._n + "." + n) or _unsup(self._n + "." + n)
            return _Wrapped(n, r, f)
        return r


EXTRA = {}


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    x = as_operand(x)
    if not (ord is None or (ord == 2 and (x.ndim == 1 or isinstance(
            axis, (int, np.integer))))):
        raise Unsupported("norm order")
    sq = ew(lambda a: sym.s_add(sym.s_mul(a.real, a.real), sym.s_mul(
        a.imag, a.imag)) if a.im is not None else sym.s_mul(a, a), x)
    return TABLE["sqrt"](A.reduce_(sq, "sum", axis, keepdims=keepdims))


_UF = {}


def ufun(name, arrs, shape, dtype, extra=()):
    """external array function with no contract but functionality: equal
    arguments (same normal form at a generic index) give equal results"""
    key = [name, tuple(extra)]
    for a in arrs:
        a = as_operand(a)
        vs = tuple(t.var("$u%d" % k, "I") for k in range(a.ndim))
        re, im = a.getter()(vs)
        key.append((tuple(t.nfterm(d) for d in a.vshape), t.nfterm(re),
                    None if im is None else t.nfterm(im)))
    key = tuple(key)
    if key not in _UF:
        _UF[key] = "%s#%d" % (name, len(_UF))
    return A.new_input(_UF[key], [A.dimterm(d) for d in shape], dtype)


def linalg_cholesky(a):
    a = as_operand(a)
    if a.ndim != 2:
        raise Unsupported("stacked cholesky")
    return ufun("cholesky", [a], a.shape, a.dtype)


EXTRA["np.linalg.cholesky"] = linalg_cholesky
EXTRA["np.linalg.norm"] = linalg_norm


class MathProxy(object):
    def __getattr__(self, n):
        r = getattr(_math, n)
        if callable(r):
            nm = {"asin": "arcsin", "acos": "arccos", "atan": "arctan",
                  "atan2": "arctan2", "pow": "power"}.get(n, n)
            if n == "floor":
                return _Wrapped(n, r, lambda a: sym.from_term(
                    t.floor(lift(a).re)))
            if n == "ceil":
                return _Wrapped(n, r, lambda a: lift(a).__ceil__())
            return _Wrapped(n, r, TABLE.get(nm) or _unsup("math." + n))
        return r


# ------------------------------------------------------------------ builtins
class SymRange(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        n = t.sub(self.hi, self.lo)
        if self.step == 1:
            return n
        if self.step == -1:
            return t.neg(n)
        if self.step > 1:
            return t.idiv(t.add(n, t.I(self.step - 1)), t.I(self.step))
        return t.idiv(t.add(t.neg(n), t.I(-self.step - 1)), t.I(-self.step))

    def elem(self, i):
        return SV(t.add(self.lo, t.mul(t.I(self.step), i)), None,
                  np.dtype(np.int64), True)

    def __iter__(self):
        raise Unsupported("symbolic range outside a for statement")

    def __len__(self):
        raise Unsupported("len of symbolic range")


class SymIter(object):
    """iterable with symbolic length n and elements elem(i)"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def length(self):
        return self.n

    def __iter__(self):
        raise Unsupported("symbolic iterable outside a for statement")


def sym_iterable(x):
    if isinstance(x, (SymRange, SymIter)):
        return x
    if isinstance(x, SArr) and x.ndim and x.vshape[0].op != "c":
        def elem(i):
            return x[SV(i)]
        return SymIter(x.vshape[0], elem)
    return None


def b_range(*a):
    if not any(isinstance(x, SV) for x in a):
        return range(*a)
    a = [lift(x) for x in a]
    if all(x.re.op == "c" for x in a):
        return range(*[int(x.re.args[0]) for x in a])
    for x in a:
        if x.re.sort != "I":
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
    step = 1
    if len(a) == 1:
        lo, hi = t.IZERO, a[0].re
    else:
        lo, hi = a[0].re, a[1].re
        if len(a) == 3:
            if a[2].re.op != "c":
                raise Unsupported("symbolic range step")
            step = int(a[2].re.args[0])
    return SymRange(lo, hi, step)


def b_len(x):
    if isinstance(x, SArr):
        return A.dimval(x.vshape[0])
    return len(x)


def b_enumerate(x, start=0):
    s = sym_iterable(x)
    if s is None:
        return enumerate(x, start)
    return SymIter(s.length(), lambda i: (
        SV(t.add(i, t.I(start)), None, np.dtype(np.int64), True), s.elem(i)))


def b_zip(*xs, **kw):
    ss = [sym_iterable(x) for x in xs]
    if not any(s is not None for s in ss):
        return zip(*xs, **kw)
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete iterables")
    n = ss[0].length()
    for s in ss[1:]:
        m = s.length()
        if not A.same_dim(n, m):
            if not ctx().entails(t.eq(n, m)):
                raise Unsupported("zip of different symbolic lengths")
    return SymIter(n, lambda i: tuple(s.elem(i) for s in ss))


def b_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], SArr):
        return a[0].min()
    xs = a if len(a) > 1 else tuple(a[0])
    if not any(isinstance(x, SV) for x in xs):
        return min(*a, **k)
    r = lift(xs[0])
    for x in xs[1:]:
        r = sym.s_min(r, lift(x))
    return r


def b_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], SArr):
        return a[0].max()
    xs = a if len(a) > 1 else tuple(a[0])
    if not any(isinstance(x, SV) for x in xs):
        return max(*a, **k)
    r = lift(xs[0])
    for x in xs[1:]:
        r = sym.s_max(r, lift(x))
    return r


def b_abs(x):
    return abs(x)


def b_sum(x, start=0):
    s = sym_iterable(x)
    if s is None:
        return sum(x, start)
    i = t.fresh("i", "I")
    v = s.elem(i)
    v = lift(v)
    n = s.length()
    r = SV(t.sum_(i, t.IZERO, n, sym.num(v)[0]), None if v.im is None else
           t.sum_(i, t.IZERO, n, v.im), v.dt)
    return r + start


def b_isinstance(x, ty):
    tys = ty if isinstance(ty, tuple) else (ty,)
    flat = []
    for q in tys:
        if isinstance(q, tuple):
            flat.extend(q)
        else:
            flat.append(q)
    if isinstance(x, SArr):
        return any(q is np.ndarray or q is SArr or q is object for q in flat)
    if isinstance(x, SV):
        import numbers
        for q in flat:
            if q in (int, float, complex, bool):
                if x.dt.kind in {int: "i", float: "f", complex: "c",
                                 bool: "b"}[q]:
                    return True
            if q is numbers.Number or q is object or q is SV:
                return True
            if q in (numbers.Integral,) and x.dt.kind in "iu":
                return True
            if q in (numbers.Real,) and x.dt.kind in "iuf":
                return True
            if isinstance(q, type) and issubclass(q, np.generic) and \
                    issubclass(x.dt.type, q):
                return True
        return False
    return isinstance(x, ty)


def b_float(*a):
    if a and isinstance(a[0], (SV, SArr)):
        v = lift(a[0])
        return SV(t.to_real(sym.num(v)[0]), None, np.dtype(float), True)
    return float(*a)


def b_int(*a, **k):
    if a and isinstance(a[0], (SV, SArr)):
        v = cast(lift(a[0]), np.int64)
        return SV(v.re, None, v.dt, True)
    return int(*a, **k)


def b_complex(*a):
    if any(isinstance(x, (SV, SArr)) for x in a):
        v = lift(a[0])
        if len(a) == 2:
            v = v + lift(a[1]) * 1j
        return cast(v, complex)
    return complex(*a)


def b_bool(*a):
    if a and isinstance(a[0], (SV, SArr)):
        return SV(sym.truth(lift(a[0])), None, np.dtype(bool), True)
    return bool(*a)


def b_any(x):
    if isinstance(x, SArr):
        return x.any()
    return any(x)


def b_all(x):
    if isinstance(x, SArr):
        return x.all()
    return all(x)


def b_pow(a, b, *m):
    return pow(a, b, *m)


def b_round(x, nd=None):
    if isinstance(x, SV):
        return cast(s_rint(x), np.int64) if nd is None else s_rint(x)
    return round(x) if nd is None else round(x, nd)
