"""Symbolic values: scalars (SV), arrays (SArr) and the execution context."""
from fractions import Fraction
import itertools
import numpy as np
from . import terms as t
from . import prove as pv


class Unsupported(Exception):
    """The source left the subset the verifier understands."""


class Infeasible(BaseException):
    pass


class Poison(object):
    def __init__(self, why="value not available after a symbolic loop"):
        self.__dict__["why"] = why

    def _bad(self, *a, **k):
        raise Unsupported(self.why)

    __getattr__ = __getitem__ = __call__ = __add__ = __radd__ = __mul__ = _bad
    __rmul__ = __sub__ = __rsub__ = __truediv__ = __bool__ = __iter__ = _bad
    __len__ = __index__ = __float__ = __int__ = __lt__ = __gt__ = _bad
    __le__ = __ge__ = __setitem__ = __iadd__ = __neg__ = _bad


class Unbound(Poison):
    def _bad(self, *a, **k):
        raise UnboundLocalError("local variable referenced before assignment")

    __getattr__ = __getitem__ = __call__ = __add__ = __radd__ = __mul__ = _bad
    __rmul__ = __sub__ = __rsub__ = __truediv__ = __bool__ = __iter__ = _bad
    __len__ = __index__ = __float__ = __int__ = __lt__ = __gt__ = _bad
    __le__ = __ge__ = __setitem__ = __iadd__ = __neg__ = _bad


UNBOUND = Unbound()


class Obligation(object):
    __slots__ = ("kind", "desc", "facts", "goal", "result")

    def __init__(self, kind, desc, facts, goal):
        self.kind, self.desc, self.facts, self.goal = kind, desc, facts, goal
        self.result = None


class Frame(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.forks = []


class Ctx(object):
    def __init__(self):
        self.facts = []
        self.frames = []
        self.storages = []
        self.obls = []
        self.where = []
        self.max_paths = 512
        self.paths = 0
        self.decisions = 0
        self.notes = []
        self.invariants = 0

    # -- facts
    def assume(self, f):
        if isinstance(f, SV):
            f = f.re
        if f is t.TRUE:
            return
        self.facts.append(f)

    def entails(self, g, timeout=None):
        return pv.entails(self.facts, g, timeout)

    def oblige(self, kind, goal, desc=""):
        if goal is t.TRUE:
            return
        self.obls.append(Obligation(kind, desc, list(self.facts), goal))

    # -- branching
    def decide(self, c):
        if c is t.TRUE:
            return True
        if c is t.FALSE:
            return False
        if not self.frames:
            raise Unsupported("symbolic branch outside exploration: %s" % c)
        fr = self.frames[-1]
        k = len(fr.taken)
        self.decisions += 1
        if k < len(fr.prefix):
            val, forced = fr.prefix[k]
        else:
            if k > 400:
                raise Unsupported("too many symbolic decisions on one path")
            forced = False
            if self.entails(c):
                val, forced = True, True
            elif self.entails(t.not_(c)):
                val, forced = False, True
            else:
                val = True
                fr.forks.append([x[1:] for x in fr.taken] + [(False, False)])
        fr.taken.append((c, val, forced))
        if not forced:
            self.facts.append(c if val else t.not_(c))
        return val

    def explore(self, run, restore=None):
        """run() along every feasible path; returns list of (decisions, kind,
        value)"""
        out = []
        work = [[]]
        while work:
            prefix = work.pop()
            if len(out) > self.max_paths:
                raise Unsupported("path explosion")
            if restore:
                restore()
            nf = len(self.facts)
            fr = Frame(prefix)
            self.frames.append(fr)
            self.paths += 1
            try:
                try:
                    r = ("ok", run())
                except (Unsupported, t.TooBig):
                    raise
                except Infeasible:
                    r = None
                except RecursionError as e:
                    raise Unsupported("recursion: %s" % e)
                except Exception as e:
                    r = ("exc", e)
            finally:
                self.frames.pop()
                pf = self.facts[nf:]
                del self.facts[nf:]
            work.extend(fr.forks)
            if r is not None:
                out.append((list(fr.taken), r[0], r[1], pf))
        return out


CTX = [Ctx()]


def ctx():
    return CTX[-1]


KORD = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3}
KDT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(float),
       "c": np.dtype(complex)}


def _rtype(a, b):
    """result dtype of SVs a, b"""
    if a.weak and not b.weak:
        a, b = b, a
    if b.weak and not a.weak:
        ka, kb = KORD[a.dt.kind], KORD[b.dt.kind]
        if kb <= ka:
            return a.dt, False
        if b.dt.kind == "c" and a.dt.kind == "f":
            return np.result_type(a.dt, np.complex64), False
        return b.dt, False
    return np.result_type(a.dt, b.dt), a.weak and b.weak


def frac(x):
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float constant")
    return Fraction(f)


def lift(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, SArr):
        if x.ndim == 0:
            return x.item()
        raise Unsupported("array where scalar expected")
    if isinstance(x, (bool, np.bool_)):
        return SV(t.TRUE if x else t.FALSE, None, np.dtype(bool),
                  isinstance(x, bool))
    if isinstance(x, (int, np.integer)):
        w = not isinstance(x, np.integer)
        return SV(t.I(int(x)), None, np.dtype(np.int64) if w else x.dtype, w)
    if isinstance(x, (float, np.floating)):
        w = type(x) is float
        return SV(t.R(frac(x)), None, np.dtype(float) if w else x.dtype, w)
    if isinstance(x, (complex, np.complexfloating)):
        w = type(x) is complex
        return SV(t.R(frac(x.real)), t.R(frac(x.imag)),
                  np.dtype(complex) if w else x.dtype, w)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if isinstance(x, t.T):
        return from_term(x)
    if isinstance(x, Poison):
        x._bad()
    raise TypeError("cannot lift %r" % (type(x),))


def from_term(x):
    return SV(x, None, KDT[{"I": "i", "R": "f", "B": "b"}[x.sort]])


def can_lift(x):
    return isinstance(x, (SV, bool, int, float, complex, np.generic)) or (
        isinstance(x, np.ndarray) and x.ndim == 0)


class SV(object):
    __slots__ = ("re", "im", "dt", "weak")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __getattr__(self, n):
        if not n.startswith("__") and hasattr(np.complex128, n):
            raise Unsupported("scalar attribute .%s" % n)
        raise AttributeError("scalar has no attribute %r" % n)

    def __init__(self, re, im=None, dt=None, weak=False):
        if dt is None:
            dt = KDT["c"] if im is not None else \
                KDT[{"I": "i", "R": "f", "B": "b"}[re.sort]]
        self.re, self.im, self.dt, self.weak = re, im, np.dtype(dt), weak
        if self.dt.kind == "c" and im is None:
            self.im = t.ZERO
        if self.dt.kind in "fc" and self.re.sort != "R":
            self.re = t.to_real(self.re)

    @property
    def kind(self):
        return self.dt.kind

    # numpy scalar surface
    @property
    def real(self):
        if self.im is None:
            return self
        return SV(self.re, None, np.empty(0, self.dt).real.dtype, self.weak)

    @property
    def imag(self):
        if self.im is None:
            return SV(t.const(0, self.re.sort), None, self.dt, self.weak)
        return SV(self.im, None, np.empty(0, self.dt).real.dtype, self.weak)

    @property
    def dtype(self):
        return self.dt

    shape = ()
    ndim = 0
    size = 1

    def conj(self):
        if self.im is None:
            return self
        return SV(self.re, t.neg(self.im), self.dt, self.weak)

    conjugate = conj

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return cast(self, dt)

    def all(self):
        return self

    any = all

    def sum(self, *a, **k):
        return self

    def is_const(self):
        return self.re.op == "c" and (self.im is None or self.im.op == "c")

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f, rev=False):
        if isinstance(o, (SArr, np.ndarray)) and getattr(o, "ndim", 0) > 0:
            if isinstance(o, SArr):
                return NotImplemented
            from .arrays import from_numpy
            o = from_numpy(o)
            return ew(f, o, self) if rev else ew(f, self, o)
        if not can_lift(o) and not (isinstance(o, SArr)):
            if isinstance(o, Poison):
                o._bad()
            return NotImplemented
        o = lift(o)
        return f(o, self) if rev else f(self, o)

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition with symbolic count")
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repetition with symbolic count")
        return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, s_floordiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __and__(self, o): return self._bin(o, s_band)
    def __rand__(self, o): return self._bin(o, s_band, True)
    def __or__(self, o): return self._bin(o, s_bor)
    def __ror__(self, o): return self._bin(o, s_bor, True)
    def __xor__(self, o): return self._bin(o, s_bxor)
    def __rxor__(self, o): return self._bin(o, s_bxor, True)
    def __lt__(self, o): return self._bin(o, s_lt)
    def __le__(self, o): return self._bin(o, s_le)
    def __gt__(self, o): return self._bin(o, s_gt)
    def __ge__(self, o): return self._bin(o, s_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, s_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, s_ne)

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __neg__(self):
        if self.dt.kind == "b":
            raise TypeError("bool negative")
        return SV(t.neg(self.re), None if self.im is None else t.neg(self.im),
                  self.dt, self.weak)

    def __pos__(self):
        return self

    def __invert__(self):
        if self.dt.kind == "b":
            return SV(t.not_(self.re), None, self.dt)
        return SV(t.sub(t.I(-1), self.re), None, self.dt)

    def __abs__(self):
        return s_abs(self)

    def __bool__(self):
        return ctx().decide(truth(self))

    def __index__(self):
        if self.re.op == "c" and self.dt.kind in "iub":
            return int(self.re.args[0])
        v = concretise(self)
        if v is not None:
            return v
        raise Unsupported("symbolic integer used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.re.op == "c" and self.im is None:
            return float(self.re.args[0])
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(float(self.re.args[0]),
                           float(self.im.args[0]) if self.im is not None
                           else 0.0)
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, nd=None):
        return s_rint(self)

    def __floor__(self):
        return from_term(t.floor(self.re))

    def __ceil__(self):
        return from_term(t.neg(t.floor(t.neg(self.re))))

    def __repr__(self):
        return "SV<%s>(%s%s)" % (self.dt, self.re, "" if self.im is None
                                 else ", %s" % self.im)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym %s>" % self.dt


def concretise(v):
    """value of an integer term fixed by the facts, or None"""
    c = ctx()
    if v.re.sort != "I":
        return None
    for k in range(0, 6):
        if c.entails(t.eq(v.re, t.I(k)), 500):
            return k
    return None


def truth(v):
    if v.dt.kind == "b" and v.re.sort == "B":
        return v.re
    z = t.const(0, v.re.sort)
    c = t.ne(v.re, z)
    if v.im is not None:
        c = t.or_(c, t.ne(v.im, t.ZERO))
    return c


def num(v):
    """(re, im) with booleans as integers"""
    re = v.re
    if re.sort == "B":
        re = t.ite(re, t.IONE, t.IZERO)
    return re, v.im


def s_add(a, b):
    dt, w = _rtype(a, b)
    if dt.kind == "b":
        if w:
            return SV(t.add(num(a)[0], num(b)[0]), None, KDT["i"], True)
        return SV(t.or_(a.re, b.re), None, dt)
    ar, ai = num(a)
    br, bi = num(b)
    im = None
    if ai is not None or bi is not None:
        im = t.add(ai or t.ZERO, bi or t.ZERO)
    return SV(t.add(ar, br), im, dt, w)


def s_sub(a, b):
    dt, w = _rtype(a, b)
    if dt.kind == "b":
        dt = KDT["i"]
    ar, ai = num(a)
    br, bi = num(b)
    im = None
    if ai is not None or bi is not None:
        im = t.sub(ai or t.ZERO, bi or t.ZERO)
    return SV(t.sub(ar, br), im, dt, w)


def s_mul(a, b):
    dt, w = _rtype(a, b)
    if dt.kind == "b":
        if w:
            return SV(t.mul(num(a)[0], num(b)[0]), None, KDT["i"], True)
        return SV(t.and_(a.re, b.re), None, dt)
    ar, ai = num(a)
    br, bi = num(b)
    if ai is None and bi is None:
        return SV(t.mul(ar, br), None, dt, w)
    if ai is None:
        return SV(t.mul(ar, br), t.mul(ar, bi), dt, w)
    if bi is None:
        return SV(t.mul(ar, br), t.mul(ai, br), dt, w)
    return SV(t.sub(t.mul(ar, br), t.mul(ai, bi)),
              t.add(t.mul(ar, bi), t.mul(ai, br)), dt, w)


def _fl(dt):
    return KDT["f"] if dt.kind in "iub" else dt


def s_div(a, b):
    dt, w = _rtype(a, b)
    dt = _fl(dt)
    ar, ai = num(a)
    br, bi = num(b)
    if bi is None:
        if br.op == "c" and br.args[0] == 0:
            if w or (a.weak and b.weak):
                raise ZeroDivisionError("division by zero")
        iv = t.inv(br)
        return SV(t.mul(ar, iv), None if ai is None else t.mul(ai, iv), dt, w)
    d = t.inv(t.add(t.mul(br, br), t.mul(bi, bi)))
    ai = ai if ai is not None else t.ZERO
    return SV(t.mul(t.add(t.mul(ar, br), t.mul(ai, bi)), d),
              t.mul(t.sub(t.mul(ai, br), t.mul(ar, bi)), d), dt, w)


def _dm(op, a, b):
    if a.op == "c" and b.op == "c" or b is t.IONE:
        return t.rebuild_op(op, a, b)
    return pv.divmod_simp(op, a, b, ctx().facts)


def s_floordiv(a, b):
    dt, w = _rtype(a, b)
    ar, br = num(a)[0], num(b)[0]
    if ar.sort == "I" and br.sort == "I":
        ctx().oblige("div", t.ne(br, t.IZERO), "integer division by zero")
        return SV(_dm("idiv", ar, br), None, dt if dt.kind != "b" else KDT["i"], w)
    return SV(t.to_real(t.floor(t.div(ar, br))), None, _fl(dt), w)


def s_mod(a, b):
    dt, w = _rtype(a, b)
    ar, br = num(a)[0], num(b)[0]
    if ar.sort == "I" and br.sort == "I":
        ctx().oblige("div", t.ne(br, t.IZERO), "integer modulo by zero")
        return SV(_dm("mod", ar, br), None, dt if dt.kind != "b" else KDT["i"], w)
    return SV(t.rmod(ar, br), None, _fl(dt), w)


def s_pow(a, b):
    dt, w = _rtype(a, b)
    if b.is_const() and b.im is None:
        e = b.re.args[0]
        if e.denominator == 1 and abs(e) <= 16:
            n = int(e)
            if n < 0:
                return s_div(lift(1.0), s_pow(a, lift(-n)))
            r = SV(t.const(1, num(a)[0].sort), t.ZERO if a.im is not None
                   else None, dt, w)
            for _ in range(n):
                r = s_mul(r, a)
            return SV(r.re, r.im, dt, w)
        if e == Fraction(1, 2) and a.im is None:
            return s_app1("sqrt", a)
    if a.im is None and b.im is None:
        return SV(t.app("pow", (t.to_real(num(a)[0]), t.to_real(num(b)[0])),
                        "R"), None, _fl(dt), w)
    raise Unsupported("complex power")


def _bb(a, b, fb, fi):
    if a.dt.kind == "b" and b.dt.kind == "b":
        return SV(fb(a.re, b.re), None, np.dtype(bool))
    raise Unsupported("bitwise operation on integers")


def s_band(a, b):
    return _bb(a, b, t.and_, None)


def s_bor(a, b):
    return _bb(a, b, t.or_, None)


def s_bxor(a, b):
    return _bb(a, b, lambda x, y: t.not_(t.iff(x, y)), None)


def _cmp(f):
    def g(a, b):
        if a.im is not None or b.im is not None:
            raise TypeError("complex comparison")
        return SV(f(num(a)[0], num(b)[0]), None, np.dtype(bool))
    return g


s_lt, s_le, s_gt, s_ge = map(_cmp, (t.lt, t.le, t.gt, t.ge))


def s_eq(a, b):
    if a.re.sort == "B" and b.re.sort == "B":
        return SV(t.iff(a.re, b.re), None, np.dtype(bool))
    ar, ai = num(a)
    br, bi = num(b)
    c = t.eq(ar, br)
    if ai is not None or bi is not None:
        c = t.and_(c, t.eq(ai or t.ZERO, bi or t.ZERO))
    return SV(c, None, np.dtype(bool))


def s_ne(a, b):
    return SV(t.not_(s_eq(a, b).re), None, np.dtype(bool))


def s_abs(a):
    if a.im is not None:
        r2 = t.add(t.mul(a.re, a.re), t.mul(a.im, a.im))
        return SV(t.app("sqrt", (r2,), "R"), None,
                  np.empty(0, a.dt).real.dtype, a.weak)
    if a.dt.kind == "b":
        return a
    if a.re.op == "c":
        return SV(t.const(abs(a.re.args[0]), a.re.sort), None, a.dt, a.weak)
    return SV(t.app("abs", (a.re,), a.re.sort), None, a.dt, a.weak)


def s_app1(name, a):
    """real/complex elementary function"""
    dt = _fl(a.dt)
    if a.im is None:
        if name == "sqrt" and a.re.op == "c":
            r = t.nf(t.app("sqrt", (t.to_real(a.re),), "R"))
            return SV(t.of_poly(r, "R"), None, dt, a.weak)
        return SV(t.app(name, (t.to_real(num(a)[0]),), "R"), None, dt, a.weak)
    if name == "exp":
        m = t.app("exp", (a.re,), "R") if a.re is not t.ZERO else t.ONE
        return SV(t.mul(m, t.app("cos", (a.im,), "R")),
                  t.mul(m, t.app("sin", (a.im,), "R")), dt, a.weak)
    return SV(t.app("c%s_re" % name, (a.re, a.im), "R"),
              t.app("c%s_im" % name, (a.re, a.im), "R"), dt, a.weak)


def s_app2(name, a, b):
    dt, w = _rtype(a, b)
    return SV(t.app(name, (t.to_real(num(a)[0]), t.to_real(num(b)[0])), "R"),
              None, _fl(dt), w)


def s_where(c, a, b):
    c = truth(c)
    dt, w = _rtype(a, b)
    if dt.kind == "b":
        return SV(t.ite(c, a.re, b.re), None, dt, w)
    ar, ai = num(a)
    br, bi = num(b)
    im = None
    if ai is not None or bi is not None:
        im = t.ite(c, ai or t.ZERO, bi or t.ZERO)
    return SV(t.ite(c, ar, br), im, dt, w)


def s_min(a, b):
    dt, w = _rtype(a, b)
    x, y = num(a)[0], num(b)[0]
    return SV(t.ite(t.lt(y, x), y, x), None, dt, w)


def s_max(a, b):
    dt, w = _rtype(a, b)
    x, y = num(a)[0], num(b)[0]
    return SV(t.ite(t.lt(x, y), y, x), None, dt, w)


def cast(v, dt):
    """convert SV to dtype"""
    v = lift(v)
    dt = np.dtype(dt)
    k = dt.kind
    if k == "b":
        return SV(truth(v), None, dt)
    re, im = num(v)
    if k in "iu":
        if im is not None:
            raise TypeError("complex to int")
        if re.sort == "R":
            # C truncation
            re = t.trunc(re)
        return SV(re, None, dt)
    if k == "f":
        return SV(t.to_real(re), None, dt)   # imaginary part discarded
    if k == "c":
        return SV(t.to_real(re), im if im is not None else t.ZERO, dt)
    raise Unsupported("cast to %s" % dt)


def ew(f, *args):
    from .arrays import ew as _ew
    return _ew(f, *args)


class SArr(object):   # filled in by arrays.py (subclass registered there)
    __slots__ = ()
