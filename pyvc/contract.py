"""Contracts.  A contract is one Python function ``c(v, **param)`` that builds
the arguments allowed by the precondition, calls the real function and states
the postcondition.  It is executed in two modes:

* SymV - arguments are symbolic, every postcondition becomes a proof
  obligation for all inputs and all iterations;
* ConV - arguments are concrete random values, the very same postcondition is
  evaluated on the real code under CPython (replay of counterexamples and the
  labelled bounded stand-in).
"""
import math
import os
import random
import signal
import time
import traceback
import itertools
import numpy as np
from . import terms as t
from . import prove as pv
from . import cuts
from . import sym
from . import arrays as A
from .sym import SV, SArr, Unsupported, lift
from .loader import Space
from . import daskmodel

_uid = itertools.count()


class Discard(Exception):
    pass


class Failed(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, "%s: %s" % (name, detail))
        self.name, self.detail = name, detail


_spaces = {}
PATCHED = {}


def unpatch():
    for (mod, name), (m, f) in PATCHED.items():
        setattr(m, name, f)
    PATCHED.clear()


def space(symbolic):
    if symbolic not in _spaces:
        _spaces[symbolic] = Space(symbolic)
        if symbolic:
            daskmodel.install(_spaces[symbolic])
    return _spaces[symbolic]


class SymV(object):
    symbolic = True

    def __init__(self):
        self.ctx = sym.ctx()
        self.uid = next(_uid)
        self.space = space(True)
        self.inputs = []
        self.mod = set()
        self.funcs = set()
        self.k = itertools.count()
        self.ctx.while_rule = None
        self.ctx.lets = []
        self.ctx.loop_exits = []

    # ---- program under contract
    def fn(self, path):
        self.funcs.add(path)
        return self.space.get(path)

    def module(self, name):
        return self.space.load(name)

    @property
    def np(self):
        return self.space.np

    # ---- arguments
    def _nm(self, name):
        return "%s@%d" % (name, self.uid)

    def dim(self, name, lo=0, hi=None):
        x = t.var(self._nm(name), "I")
        f = t.le(t.I(lo), x)
        if f not in self.ctx.facts:
            self.ctx.assume(f)
        if hi is not None:
            self.ctx.assume(t.le(x, t.I(hi)))
        return SV(x, None, np.dtype(np.int64), True)

    def int(self, name, lo=None, hi=None):
        x = t.var(self._nm(name), "I")
        if lo is not None:
            self.ctx.assume(t.le(A.dimterm(lo), x))
        if hi is not None:
            self.ctx.assume(t.lt(x, A.dimterm(hi)))
        return SV(x, None, np.dtype(np.int64), True)

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False,
             bounded=False):
        if not bounded:
            positive = positive or (lo is not None and lo > 0)
            lo, hi = (0 if lo == 0 else None), None
        x = t.var(self._nm(name), "R")
        if lo is not None:
            self.ctx.assume(t.le(t.to_real(lift(lo).re), x))
        if hi is not None:
            self.ctx.assume(t.le(x, t.to_real(lift(hi).re)))
        if positive:
            self.ctx.assume(t.lt(t.ZERO, x))
        if nonzero:
            self.ctx.assume(t.ne(x, t.ZERO))
        return SV(x, None, np.dtype(float), True)

    def bool(self, name):
        return SV(t.var(self._nm(name), "B"), None, np.dtype(bool), True)

    def array(self, name, shape, dtype=float, lo=None, hi=None,
              positive=False, nonneg=False, nonzero=False, gen=None,
              inc=None, bounded=False):
        """lo, hi: for integers a precondition; for reals the range of the
        values sampled, of which the proof keeps only the sign (unless
        bounded)"""
        nm = self._nm(name)
        a = A.new_input(nm, [A.dimterm(d) for d in shape], dtype)
        k = np.dtype(dtype).kind
        if k not in "iu" and not bounded:
            positive = positive or (lo is not None and lo > 0)
            nonneg = nonneg or (lo is not None and lo >= 0)
            lo = hi = None
        los = None if lo is None else (A.dimterm(lo) if k in "iu" else
                                       t.to_real(lift(lo).re))
        his = None if hi is None else (A.dimterm(hi) if k in "iu" else
                                       t.to_real(lift(hi).re))
        if los is not None or his is not None or positive or nonneg or \
                nonzero:
            def ax(x, *idx):
                out = []
                z = t.const(0, x.sort)
                if los is not None:
                    out.append(t.le(los, x))
                if his is not None:
                    out.append(t.lt(x, his) if k in "iu" else t.le(x, his))
                if positive:
                    out.append(t.lt(z, x))
                if nonneg:
                    out.append(t.le(z, x))
                if nonzero and k in "iuf":
                    out.append(t.ne(x, z))
                return out
            pv._AXF[nm] = ax
        if nonzero and k == "c":
            def axr(x, *idx):
                re = t.app(nm + ".re", idx, "R")
                im = t.app(nm + ".im", idx, "R")
                n2 = t.add(t.mul(re, re), t.mul(im, im))
                return [t.lt(t.ZERO, n2)]
            pv._AXF[nm + ".re"] = axr
        self.inputs.append((name, a, a.st.get))
        return a

    def axiom(self, arr, f):
        """element-wise axiom on an input array: f(value, *idx)->SV bool"""
        nm = arr.st.name
        old = pv._AXF.get(nm)

        def ax(x, *idx):
            r = list(old(x, *idx)) if old else []
            r.append(sym.truth(lift(f(SV(x), *[SV(i) for i in idx]))))
            return r
        pv._AXF[nm] = ax

    def make(self, name, nested, dtype=None):
        """an input array whose elements the contract gives explicitly"""
        a = A.from_nested(nested, dtype)
        a.st.name = self._nm(name)
        self.inputs.append((name, a, a.st.get))
        return a

    def input_fn(self, name, shape, dtype, f):
        """an input array given by a formula of the index"""
        dt = np.dtype(dtype)

        def get(idx):
            v = sym.cast(lift(f(*[SV(i, None, np.dtype(np.int64), True)
                                  for i in idx])), dt)
            if dt.kind == "c" and v.im is None:
                return v.re, t.ZERO
            return v.re, v.im
        st = A.Storage([A.dimterm(d) for d in shape], dt, get, self._nm(name))
        a = A.Arr(st)
        self.inputs.append((name, a, a.st.get))
        return a

    def chunks(self, name, n, lo=0):
        """sizes of n chunks of one dimension"""
        return [self.dim("%s.%d" % (name, k), lo) for k in range(n)]

    def dask(self, arr, *sizes):
        return daskmodel.split(arr, sizes)

    def stub(self, name, module):
        self.space.overrides[name] = module

    def use_contract(self, path, f):
        """calls of path are checked against / replaced by its contract"""
        mod, name = path.split(":")
        m = self.space.load(mod)
        key = (mod, name)
        if not hasattr(m, name):
            return
        if key not in PATCHED:
            PATCHED[key] = (m, getattr(m, name))
        setattr(m, name, f)
        self.funcs.add(path + " (by contract)")

    def while_rule(self, f):
        """invariant of the while loops: f(initial state) -> alternatives"""
        self.ctx.while_rule = f

    def loop_count(self):
        """iterations of the last while loop"""
        ex = getattr(self.ctx, "loop_exits", None)
        if not ex:
            raise Unsupported("no while loop was summarised")
        return ex[-1].count

    def fresh_int(self, lo, hi):
        return self.int("r%d" % next(_uid), lo, hi)

    def fresh_real(self):
        return self.real("r%d" % next(_uid))

    def modifies(self, *arrs):
        for a in arrs:
            self.mod.add(id(a.st))

    def assume(self, c):
        self.ctx.assume(sym.truth(lift(c)))
        return True

    def assume_all(self, bounds, f):
        vs = [t.fresh("a", "I") for _ in bounds]
        body = sym.truth(lift(f(*[SV(x) for x in vs])))
        for x, n in reversed(list(zip(vs, bounds))):
            body = t.forall(x, t.IZERO, A.dimterm(n), body)
        self.ctx.assume(body)

    # ---- spec language
    def rd(self, a, *idx):
        if isinstance(a, np.ndarray):
            a = A.from_numpy(a)
        return a.at(*[A.dimterm(i) for i in idx])

    def sum(self, n, f):
        """sum over 0 <= k < n; a list n is a dimension split in chunks"""
        if isinstance(n, (list, tuple)):
            tot, off = 0, 0
            for c in n:
                tot = self.sum(c, lambda k, o=off: f(o + k)) + tot
                off = c + off
            return tot
        b = t.fresh("z", "I")
        v = lift(f(SV(b, None, np.dtype(np.int64), True)))
        re, im = sym.num(v)
        n = A.dimterm(n)
        return SV(t.sum_(b, t.IZERO, n, re), None if im is None else
                  t.sum_(b, t.IZERO, n, im), v.dt)

    def prod(self, n, f):
        b = t.fresh("z", "I")
        v = lift(f(SV(b, None, np.dtype(np.int64), True)))
        return SV(t.binder("prod", b, t.IZERO, A.dimterm(n), v.re), None,
                  v.dt)

    def min(self, n, f):
        b = t.fresh("z", "I")
        v = lift(f(SV(b, None, np.dtype(np.int64), True)))
        return SV(A.minmax("min", b, t.IZERO, A.dimterm(n), v.re))

    def max(self, n, f):
        b = t.fresh("z", "I")
        v = lift(f(SV(b, None, np.dtype(np.int64), True)))
        return SV(A.minmax("max", b, t.IZERO, A.dimterm(n), v.re))

    def forall(self, n, f):
        b = t.fresh("z", "I")
        return SV(t.forall(b, t.IZERO, A.dimterm(n), sym.truth(lift(
            f(SV(b, None, np.dtype(np.int64), True))))))

    def exists(self, n, f):
        b = t.fresh("z", "I")
        return SV(t.exists(b, t.IZERO, A.dimterm(n), sym.truth(lift(
            f(SV(b, None, np.dtype(np.int64), True))))))

    def where(self, c, a, b):
        return sym.s_where(lift(c), lift(a), lift(b))

    def and_(self, *a):
        return SV(t.and_(*[sym.truth(lift(x)) for x in a]))

    def or_(self, *a):
        return SV(t.or_(*[sym.truth(lift(x)) for x in a]))

    def not_(self, a):
        return SV(t.not_(sym.truth(lift(a))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def f1(self, name, x):
        if name == "rint":
            return sym.s_rint(lift(x))
        return sym.s_app1(name, lift(x))

    def sqrt(self, x): return self.f1("sqrt", x)
    def sin(self, x): return self.f1("sin", x)
    def cos(self, x): return self.f1("cos", x)
    def exp(self, x): return self.f1("exp", x)
    def log(self, x): return self.f1("log", x)
    def arcsin(self, x): return self.f1("arcsin", x)
    def arctan2(self, y, x): return sym.s_app2("arctan2", lift(y), lift(x))
    def abs(self, x): return sym.s_abs(lift(x))
    def conj(self, x): return lift(x).conj()
    def re(self, x): return lift(x).real
    def im(self, x): return lift(x).imag
    def floor(self, x): return sym.from_term(t.floor(lift(x).re))
    def trunc(self, x): return sym.cast(lift(x), np.int64)

    def cplx(self, re, im):
        return SV(t.to_real(lift(re).re), t.to_real(lift(im).re),
                  np.dtype(complex))

    def let(self, name, x):
        """name an intermediate value of the specification (a cut)"""
        x = lift(x)
        if x.re.op in ("c", "v") and x.im is None:
            return x

        def one(term):
            if term is None:
                return None
            y = t.var(t.fresh_name(name), term.sort)
            self.ctx.lets.append((y, term))
            return y
        return SV(one(x.re), one(x.im)) if x.im is not None else \
            SV(one(x.re))

    def pow(self, a, b):
        return sym.s_pow(lift(a), lift(b))

    # ---- postconditions
    def ensure(self, name, c):
        c = sym.truth(lift(c))
        self.ctx.obls.append(sym.Obligation("post", name,
                                            list(self.ctx.facts), c))

    def eq(self, name, a, b):
        a, b = lift(a), lift(b)
        if a.re.sort == "B" and b.re.sort == "B":
            return self.ensure(name, SV(t.iff(a.re, b.re)))
        ar, ai = sym.num(a)
        br, bi = sym.num(b)
        fs = list(self.ctx.facts)

        def o(x, y, tag):
            x, y = t._unify((x, y))[0]
            self.ctx.obls.append(sym.Obligation(
                "post", name + tag, fs, t.mk("eq", (x, y), "B")))
        o(ar, br, "")
        if ai is not None or bi is not None:
            o(ai or t.ZERO, bi or t.ZERO, ".imag")

    def shape_is(self, name, arr, shape):
        if isinstance(arr, np.ndarray):
            arr = A.from_numpy(arr)
        if not isinstance(arr, SArr):
            raise Failed(name, "result is %s, not an array" % type(arr))
        if arr.ndim != len(shape):
            self.ensure(name + " rank", SV(t.FALSE))
            return False
        for k, (x, y) in enumerate(zip(arr.vshape, shape)):
            self.ensure("%s shape[%d]" % (name, k),
                        SV(t.eq(x, A.dimterm(y))))
        return True

    def all_eq(self, name, arr, shape, spec, where=None):
        if isinstance(arr, np.ndarray):
            arr = A.from_numpy(arr)
        if isinstance(arr, daskmodel.DArr):
            return self._all_eq_blocks(name, arr, shape, spec)
        if not self.shape_is(name, arr, shape):
            return
        self.each(shape, lambda *idx: self.eq(name, arr.at(*idx),
                                              spec(*idx)))

    def _all_eq_blocks(self, name, arr, shape, spec):
        if not self.shape_is(name, arr, shape):
            return
        offs = []
        for c in arr.chunks:
            o, acc = [], 0
            for x in c:
                o.append(acc)
                acc = x + acc
            offs.append(o)
        for b, blk in sorted(arr.blocks_.items(), key=lambda x: x[0]):
            if isinstance(blk, np.ndarray):
                blk = A.from_numpy(blk)
            nm = "%s block %s" % (name, b)
            csh = [arr.chunks[k][i] for k, i in enumerate(b)]
            if not self.shape_is(nm, blk, csh):
                continue
            self.each(csh, lambda *idx: self.eq(
                nm, blk.at(*idx), spec(*[
                    offs[k][b[k]] + i for k, i in enumerate(idx)])))

    def each(self, shape, f):
        n0 = len(self.ctx.facts)
        idx = []
        for d in shape:
            d = A.dimterm(d)
            if d.op == "c" and d.args[0] <= 4:
                idx.append(None)
                continue
            x = t.fresh("k", "I")
            self.ctx.assume(t.le(t.IZERO, x))
            self.ctx.assume(t.lt(x, d))
            idx.append(SV(x, None, np.dtype(np.int64), True))
        small = [k for k, x in enumerate(idx) if x is None]
        for vals in itertools.product(*[
                range(int(A.dimterm(shape[k]).args[0])) for k in small]):
            full = list(idx)
            for k, v in zip(small, vals):
                full[k] = v
            f(*full)
        del self.ctx.facts[n0:]

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except (Unsupported, t.TooBig, sym.Infeasible):
            raise
        except exc:
            self.ctx.obls.append(sym.Obligation(
                "raises", name, list(self.ctx.facts), t.TRUE))
            return True
        except Exception as e:
            self.ensure("%s: raised %s instead" % (name, type(e).__name__),
                        SV(t.FALSE))
            return False
        self.ensure("%s: did not raise" % name, SV(t.FALSE))
        return False

    def case(self, **kw):
        pass

    def choice(self, seq):
        raise Unsupported("choice in symbolic mode")


class ConV(object):
    symbolic = False

    def __init__(self, rng, small=4, rtol=1e-7, atol=1e-9):
        self.rng = rng
        self.space = space(False)
        self.dims = {}
        self.arrs = {}
        self.copies = []
        self.mod = set()
        self.small = small
        self.rtol, self.atol = rtol, atol
        self.checked = 0
        self.notes = {}
        self.funcs = set()

    def fn(self, path):
        self.funcs.add(path)
        return self.space.get(path)

    def module(self, name):
        return self.space.load(name)

    @property
    def np(self):
        return np

    def dim(self, name, lo=0, hi=None):
        if name not in self.dims:
            h = lo + self.small if hi is None else min(hi, lo + self.small)
            # prefer small, sometimes the minimum
            self.dims[name] = int(self.rng.integers(lo, h + 1))
        return self.dims[name]

    def int(self, name, lo=None, hi=None):
        lo = -5 if lo is None else lo
        hi = lo + 8 if hi is None else hi
        if hi <= lo:
            raise Discard()
        v = int(self.rng.integers(lo, min(hi, lo + 50)))
        self.dims[name] = v
        return v

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False,
             bounded=False):
        if lo is not None and hi is not None:
            v = float(self.rng.uniform(lo, hi))
        else:
            v = float(self.rng.normal() * 2)
            if positive or (lo is not None and lo == 0):
                v = abs(v) + 0.05
            elif lo is not None:
                v = lo + abs(v)
            if hi is not None and lo is None:
                v = hi - abs(v)
        self.dims[name] = v
        return v

    def bool(self, name):
        v = bool(self.rng.integers(0, 2))
        self.dims[name] = v
        return v

    def array(self, name, shape, dtype=float, lo=None, hi=None,
              positive=False, nonneg=False, nonzero=False, gen=None,
              inc=None, bounded=False):
        shape = tuple(int(s) for s in shape)
        dt = np.dtype(dtype)
        if dt in (np.float32, np.complex64):
            self.rtol, self.atol = max(self.rtol, 1e-3), max(self.atol, 1e-3)
        r = self.rng
        if gen is not None:
            a = np.asarray(gen(r, shape)).astype(dt)
        elif dt.kind == "c":
            a = (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(dt)
        elif dt.kind == "f":
            if lo is not None and hi is not None:
                a = r.uniform(lo, hi, size=shape)
            else:
                a = r.normal(size=shape)
                if positive or nonneg or (lo is not None):
                    a = np.abs(a) + 0.05 + (lo or 0)
                elif hi is not None:
                    a = hi - np.abs(a)
            a = np.asarray(a).astype(dt)
            if nonneg and a.size and r.integers(0, 3) == 0:
                a.flat[int(r.integers(0, a.size))] = 0
        elif dt.kind == "b":
            p = r.choice([0.0, 0.3, 0.5, 1.0], p=[.2, .4, .3, .1])
            a = r.uniform(size=shape) < p
        else:
            lo = 0 if lo is None else int(lo)
            hi = lo + 5 if hi is None else int(hi)
            if hi <= lo:
                if int(np.prod(shape)) > 0:
                    raise Discard()
                hi = lo + 1
            a = r.integers(lo, hi, size=shape).astype(dt)
        self.arrs[name] = a
        self.copies.append((name, a, a.copy()))
        return a

    def axiom(self, arr, f):
        pass

    def make(self, name, nested, dtype=None):
        a = np.array(nested, dtype=dtype)
        self.arrs[name] = a
        self.copies.append((name, a, a.copy()))
        return a

    def input_fn(self, name, shape, dtype, f):
        shape = tuple(int(s) for s in shape)
        a = np.zeros(shape, dtype)
        for idx in np.ndindex(*shape):
            a[idx] = f(*idx)
        self.arrs[name] = a
        self.copies.append((name, a, a.copy()))
        return a

    def chunks(self, name, n, lo=0):
        return [self.dim("%s.%d" % (name, k), max(lo, 1))
                for k in range(n)]

    def dask(self, arr, *sizes):
        import dask.array as da
        return da.from_array(arr, chunks=tuple(
            (int(d),) if s is None else tuple(int(x) for x in s)
            for d, s in zip(arr.shape, sizes)))

    def choice(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def compute(self, x):
        if hasattr(x, "dask") and hasattr(x, "compute"):
            return x.compute(scheduler="sync")
        return x

    def stub(self, name, module):
        self.space.overrides[name] = module

    def use_contract(self, path, f):
        """calls of path are checked against / replaced by its contract"""
        mod, name = path.split(":")
        m = self.space.load(mod)
        key = (mod, name)
        if not hasattr(m, name):
            return
        if key not in PATCHED:
            PATCHED[key] = (m, getattr(m, name))
        setattr(m, name, f)
        self.funcs.add(path + " (by contract)")

    def while_rule(self, f):
        """invariant of the while loops: f(initial state) -> alternatives"""
        self.ctx.while_rule = f

    def loop_count(self):
        """iterations of the last while loop"""
        ex = getattr(self.ctx, "loop_exits", None)
        if not ex:
            raise Unsupported("no while loop was summarised")
        return ex[-1].count

    def fresh_int(self, lo, hi):
        return self.int("r%d" % next(_uid), lo, hi)

    def fresh_real(self):
        return self.real("r%d" % next(_uid))

    def use_contract(self, path, f):
        pass

    def while_rule(self, f):
        pass

    def modifies(self, *arrs):
        for a in arrs:
            self.mod.add(id(a))

    def assume(self, c):
        if not c:
            raise Discard()

    def assume_all(self, bounds, f):
        for idx in itertools.product(*[range(int(b)) for b in bounds]):
            if not f(*idx):
                raise Discard()

    def rd(self, a, *idx):
        return a[tuple(idx)]

    def sum(self, n, f):
        if isinstance(n, (list, tuple)):
            n = sum(n)
        r = 0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def prod(self, n, f):
        r = 1
        for k in range(int(n)):
            r = r * f(k)
        return r

    def min(self, n, f):
        return min(f(k) for k in range(int(n)))

    def max(self, n, f):
        return max(f(k) for k in range(int(n)))

    def forall(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(k)) for k in range(int(n)))

    def where(self, c, a, b):
        return a if c else b

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def f1(self, name, x):
        return getattr(np, name)(x)

    def sqrt(self, x): return np.sqrt(x)
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def arcsin(self, x): return np.arcsin(x)
    def arctan2(self, y, x): return np.arctan2(y, x)
    def abs(self, x): return abs(x)
    def conj(self, x): return np.conj(x)
    def re(self, x): return np.real(x)
    def im(self, x): return np.imag(x)
    def floor(self, x): return int(math.floor(x))
    def trunc(self, x): return int(x)
    def cplx(self, re, im): return complex(re, im)
    def let(self, name, x): return x
    def pow(self, a, b): return a ** b

    def close(self, a, b):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = complex(a), complex(b)
        if a == b:
            return True
        if a != a and b != b:
            return True
        return abs(a - b) <= self.atol + self.rtol * max(abs(a), abs(b), 1e-3)

    def ensure(self, name, c):
        self.checked += 1
        if not bool(c):
            raise Failed(name, "postcondition is false")

    def eq(self, name, a, b):
        self.checked += 1
        if not self.close(a, b):
            raise Failed(name, "got %r, contract says %r" % (a, b))

    def shape_is(self, name, arr, shape):
        self.checked += 1
        if tuple(np.shape(arr)) != tuple(int(s) for s in shape):
            raise Failed(name + " shape", "got %r, contract says %r" % (
                np.shape(arr), tuple(shape)))
        return True

    def all_eq(self, name, arr, shape, spec, where=None):
        if hasattr(arr, "dask"):
            self.shape_is(name + " (metadata)", arr, shape)
            dt = arr.dtype
            arr = self.compute(arr)
            self.checked += 1
            if dt != arr.dtype:
                raise Failed(name, "declared dtype %s, computed %s" % (
                    dt, arr.dtype))
        self.shape_is(name, arr, shape)
        for idx in itertools.product(*[range(int(s)) for s in shape]):
            self.checked += 1
            a, b = arr[idx], spec(*idx)
            if not self.close(a, b):
                raise Failed(name, "at %r got %r, contract says %r" % (
                    idx, a, b))

    def each(self, shape, f):
        for idx in itertools.product(*[range(int(s)) for s in shape]):
            f(*idx)

    def raises(self, name, exc, thunk):
        self.checked += 1
        try:
            thunk()
        except exc:
            return True
        except Exception as e:
            raise Failed(name, "raised %s: %s" % (type(e).__name__, e))
        raise Failed(name, "did not raise %s" % (exc,))

    def frame(self):
        for name, a, cp in self.copies:
            if id(a) in self.mod:
                continue
            self.checked += 1
            same = a.shape == cp.shape and np.array_equal(
                a, cp, equal_nan=a.dtype.kind in "fc")
            if not same:
                raise Failed("frame", "input %s was modified" % name)

    def describe(self):
        d = dict(self.dims)
        for k, a in self.arrs.items():
            d[k] = {"shape": list(a.shape), "dtype": str(a.dtype),
                    "data": (a.tolist() if a.size <= 64 and a.dtype.kind
                             != "c" else repr(a.tolist())[:2000])}
        d.update(self.notes)
        return d


# ------------------------------------------------------------------ running
def run_symbolic(fn, kw, timeout=None):
    """returns a report dict"""
    t0 = time.time()
    sym.CTX.append(sym.Ctx())
    c = sym.ctx()
    rep = {"status": "proved", "obligations": 0, "discharged": 0,
           "failed": [], "functions": [], "paths": 0, "invariants": 0,
           "detail": ""}
    s0 = dict(pv.STATS)
    try:
        vs = []
        uid = next(_uid)

        def run():
            v = SymV()
            v.uid = uid
            vs.append(v)
            fn(v, **kw)
            # frame
            for name, a, g0 in v.inputs:
                if id(a.st) in v.mod or a.st.get is g0:
                    continue
                idx = tuple(t.fresh("k", "I") for _ in a.vshape)
                inb = [t.and_(t.le(t.IZERO, x), t.lt(x, d))
                       for x, d in zip(idx, a.vshape)]
                r0, r1 = g0(idx), a.st.get(idx)
                for x, y in zip(r0, r1):
                    if x is not None:
                        goal = t.mk("eq", (x, y), "B") if x.sort != "B" else \
                            t.iff(x, y)
                        c.obls.append(sym.Obligation(
                            "frame", "input %s unchanged" % name,
                            list(c.facts) + inb, goal))
            if v.ctx.facts and len(vs) <= 4:
                rep.setdefault("pre_sat", []).append(
                    pv.check_sat(v.ctx.facts, 3000))
            return True
        outs = c.explore(run)
        rep["paths"] = len(outs)
        rep["invariants"] = c.invariants
        for v in vs:
            rep["functions"] = sorted(set(rep["functions"]) | v.funcs)
        nok = 0
        for dec, kind, val, pf in outs:
            if kind == "ok":
                nok += 1
                continue
            model_error(val)
            if isinstance(val, Failed):
                o = sym.Obligation("post", str(val), pf, t.FALSE)
            else:
                tb = traceback.extract_tb(val.__traceback__)
                loc = "; ".join("%s:%d" % (f.filename, f.lineno)
                                for f in tb[-3:])
                o = sym.Obligation("no-exception", "%s: %s [%s]" % (
                    type(val).__name__, val, loc), pf, t.FALSE)
            c.obls.append(o)
        if any(r == "unsat" for r in rep.get("pre_sat", [])):
            rep["status"] = "vacuous"
            rep["detail"] = "precondition is unsatisfiable"
            return rep
        seen = set()
        worst = "proved"
        for o in c.obls:
            key = (o.goal.id, tuple(sorted({f.id for f in o.facts})))
            if key in seen:
                continue
            seen.add(key)
            rep["obligations"] += 1
            r = None
            if any(y in o.goal.fv for y, d in c.lets):
                # with the named values left arbitrary, else expanded
                r = pv.prove(o.facts, cuts.cut(c.lets, o.facts, o.goal))
                if not r:
                    goal = o.goal
                    for y, d in reversed(c.lets):
                        goal = t.subst(goal, {y: d})
                    r = pv.prove(o.facts, goal)
            else:
                r = pv.prove(o.facts, o.goal)
            if r:
                rep["discharged"] += 1
            else:
                rep["failed"].append({
                    "obligation": "%s: %s" % (o.kind, o.desc),
                    "status": r.status, "back_end": r.how,
                    "detail": r.detail[:1500],
                    "goal": t.show(o.goal)[:1500],
                    "model": str(r.model)[:1500] if r.model is not None
                    else None})
                if r.status == "refuted" or worst != "refuted":
                    worst = r.status
        rep["obligations"] += 2 * c.invariants
        rep["discharged"] += 2 * c.invariants
        rep["status"] = worst
        if rep["obligations"] == 0 or nok == 0 and worst == "proved":
            rep["status"] = "vacuous"
            rep["detail"] = "no obligations / no normal path"
    except (Unsupported, t.TooBig) as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [("%s:%d" % (f.filename, f.lineno)) for f in tb
               if "/africanus/" in f.filename]
        rep["status"] = "unsupported"
        rep["detail"] = "%s: %s [%s]" % (type(e).__name__, e,
                                         loc[-1] if loc else "")
    finally:
        unpatch()
        sym.CTX.pop()
        rep["wall_s"] = round(time.time() - t0, 3)
        rep["solver_s"] = round(pv.STATS["z3_time"] - s0["z3_time"], 3)
        rep["z3_calls"] = pv.STATS["z3_calls"] - s0["z3_calls"]
    return rep


_PYVC = os.path.dirname(os.path.abspath(__file__)) + os.sep


def model_error(e):
    """an operation the array/scalar model lacks shows up as a TypeError or
    AttributeError from the model: undecided, not a fault of the program"""
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError,
                          RecursionError, AssertionError, KeyError, NameError)):
        return
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1].filename if tb else ""
    words = ("SV", "Arr", "DArr", "SArr", "_Wrapped", "Poison", "pyvc")
    txt = str(e).replace("'", " ").replace(".", " ").split()
    if inner.startswith(_PYVC) or any(w in txt for w in words):
        raise Unsupported("model: %s: %s [%s]" % (
            type(e).__name__, e, "; ".join("%s:%d" % (
                f.filename, f.lineno) for f in tb[-3:])))


def run_concrete(fn, kw, seed, n, budget_s, small=4, stop_on_fail=True):
    """random concrete instances of the contract on the real code"""
    t0 = time.time()
    done = discarded = checks = 0
    fail = None
    for k in range(n):
        # the first case also pays for imports and compilation
        if k > 1 and time.process_time() - c0 > budget_s and (
                done >= 10 or time.time() - t0 > 10 * budget_s):
            break
        r = replay_one(fn, kw, seed, k, small)
        if k == 0:
            c0 = time.process_time()
        if r["outcome"] == "discard":
            discarded += 1
            continue
        done += 1
        checks += r["checks"]
        if r["outcome"] == "fail":
            fail = r
            break
    return {"cases": done, "discarded": discarded, "checks": checks,
            "failure": fail, "wall_s": round(time.time() - t0, 3)}


def replay_one(fn, kw, seed, k, small=4):
    rng = np.random.default_rng([seed, k])
    random.seed(seed * 100003 + k)
    np.random.seed((seed * 100003 + k) % (2**32 - 1))
    v = ConV(rng, small=small if k % 3 else 2)

    def late(sig, frame):
        raise TimeoutError("no result within 60 s")
    try:
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, 60)
    except ValueError:
        old = None
    try:
        return _replay_one(fn, kw, seed, k, v)
    finally:
        if old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def _replay_one(fn, kw, seed, k, v):
    try:
        with np.errstate(all="ignore"):
            fn(v, **kw)
        v.frame()
        return {"outcome": "ok", "checks": v.checked}
    except Discard:
        return {"outcome": "discard", "checks": 0}
    except Failed as e:
        return {"outcome": "fail", "checks": v.checked, "what": str(e),
                "seed": seed, "k": k, "input": v.describe()}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = "; ".join("%s:%d in %s" % (f.filename, f.lineno, f.name)
                        for f in tb[-4:])
        return {"outcome": "fail", "checks": v.checked, "seed": seed, "k": k,
                "what": "unexpected %s: %s [%s]" % (type(e).__name__, e, loc),
                "input": v.describe(), "exception": type(e).__name__}
