"""Hash-consed first-order terms with binders, substitution and a polynomial
normal form.  Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans).

Every numeric term is normalised to a polynomial over atoms with rational
coefficients.  ``ite(c, a, b)`` becomes ``b + [c](a - b)`` with idempotent
indicator atoms ``[c]``, finite sums are split linearly over their monomials,
factors that do not mention the bound variable are pulled out, and indicators
that pin the bound variable collapse the sum.
"""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T(object):
    __slots__ = ("op", "args", "sort", "id", "fv", "depth", "hv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


BINDERS = ("sum", "prod", "min", "max", "forall", "last")


def mk(op, args, sort):
    key = (op, sort) + tuple((a.id if isinstance(a, T) else ("#", a))
                             for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = next(_ids)
    if op == "v":
        t.fv = frozenset((t,))
        t.depth = 0
        t.hv = frozenset()
    elif op in BINDERS:
        fv = frozenset()
        d = 0
        hv = frozenset()
        for a in args[1:]:
            fv |= a.fv
            hv |= a.hv
            d = max(d, a.depth)
        t.fv = (args[1].fv | args[2].fv |
                (frozenset().union(*[a.fv for a in args[3:]]) - {args[0]}))
        t.depth = d + 1
        t.hv = hv
    else:
        fv = frozenset()
        hv = frozenset()
        d = 0
        for a in args:
            if isinstance(a, T):
                fv |= a.fv
                hv |= a.hv
                d = max(d, a.depth)
        if op == "f":
            hv = hv | {args[0]}
        t.fv, t.depth, t.hv = fv, d, hv
    _table[key] = t
    return t


_fresh = itertools.count()


def var(name, sort):
    return mk("v", (name,), sort)


def fresh(prefix, sort):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def fresh_name(prefix):
    return "%s!%d" % (prefix, next(_fresh))


def const(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if sort is None:
        sort = "I" if isinstance(v, int) else "R"
    return mk("c", (Fraction(v),), sort)


TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")


def I(v):
    return const(v, "I")


def R(v):
    return const(v, "R")


ZERO, ONE, IZERO, IONE = R(0), R(1), I(0), I(1)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def app(fname, args, sort):
    return mk("f", (fname,) + tuple(args), sort)


def is_app_of(x, b):
    """array element (plus terms free of b)"""
    if x.op == "f":
        return b in x.fv
    return x.op == "add" and any(is_app_of(a, b) for a in x.args)


def to_real(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    if t.op == "c":
        return R(t.args[0])
    if t.op == "+":
        return add(*[to_real(a) for a in t.args])
    if t.op == "*":
        return mul(*[to_real(a) for a in t.args])
    if t.op == "ite":
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op == "sum":
        return mk("sum", t.args[:3] + (to_real(t.args[3]),), "R")
    return mk("toreal", (t,), "R")


def _unify(args):
    if any(a.sort == "R" for a in args):
        return [to_real(a) for a in args], "R"
    out = [ite(a, IONE, IZERO) if a.sort == "B" else a for a in args]
    return out, "I"


def add(*args):
    args, s = _unify(args)
    out = []
    c = Fraction(0)
    for a in args:
        if a.op == "+":
            for b in a.args:
                if b.op == "c":
                    c += b.args[0]
                else:
                    out.append(b)
        elif a.op == "c":
            c += a.args[0]
        else:
            out.append(a)
    if c != 0 or not out:
        out.append(const(c, s))
    if len(out) == 1:
        return out[0]
    return mk("+", tuple(out), s)


def mul(*args):
    args, s = _unify(args)
    out = []
    c = Fraction(1)
    for a in args:
        if a.op == "*":
            for b in a.args:
                if b.op == "c":
                    c *= b.args[0]
                else:
                    out.append(b)
        elif a.op == "c":
            c *= a.args[0]
        else:
            out.append(a)
    if c == 0:
        return const(0, s)
    if c != 1 or not out:
        out.insert(0, const(c, s))
    if len(out) == 1:
        return out[0]
    return mk("*", tuple(out), s)


def neg(a):
    return mul(const(-1, "R" if a.sort == "R" else "I"), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    a = to_real(a)
    if a.op == "c":
        if a.args[0] == 0:
            return mk("inv", (a,), "R")
        return R(1 / a.args[0])
    return mk("inv", (a,), "R")


def div(a, b):
    return mul(to_real(a), inv(b))


def power(a, n):
    assert isinstance(n, int)
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return inv(power(a, -n))
    return mul(*([a] * n))


def idiv(a, b):
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return I(a.args[0] // b.args[0])
    if b is IONE:
        return a
    return mk("idiv", (a, b), "I")


def mod(a, b):
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return I(a.args[0] % b.args[0])
    if b is IONE:
        return IZERO
    return mk("mod", (a, b), "I")


def rebuild_op(op, a, b):
    return idiv(a, b) if op == "idiv" else mod(a, b)


def rmod(a, b):
    """floor-modulus on reals: a - b*floor(a/b)"""
    a, b = to_real(a), to_real(b)
    if a.op == "c" and b.op == "c" and b.args[0] != 0:
        return R(a.args[0] % b.args[0])
    return sub(a, mul(b, to_real(floor(div(a, b)))))


def floor(a):
    if a.sort == "I":
        return a
    if a.op == "c":
        return I(a.args[0].numerator // a.args[0].denominator)
    if a.op == "toreal":
        return a.args[0]
    return mk("floor", (a,), "I")


def _integral(a):
    """the integer term below a cast, or None"""
    if a.sort == "I":
        return a
    if a.op == "toreal":
        return a.args[0]
    if a.op == "c" and a.args[0] == int(a.args[0]):
        return I(int(a.args[0]))
    return None


def rint(a):
    """nearest integer, halves to even"""
    r = _integral(a)
    if r is not None:
        return r
    if a.op == "c":
        return I(round(Fraction(a.args[0])))
    return mk("rint", (a,), "I")


def trunc(a):
    """integer part, towards zero"""
    r = _integral(a)
    if r is not None:
        return r
    if a.op == "c":
        return I(int(Fraction(a.args[0])))
    return mk("trunc", (a,), "I")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if "B" in (a.sort, b.sort):
            (a, b), s = _unify((a, b))
        else:
            a, b = to_real(a), to_real(b)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # collapse nested ites on the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*args):
    out = []
    seen = set()
    for a in args:
        for b in (a.args if a.op == "and" else (a,)):
            if b is FALSE:
                return FALSE
            if b is TRUE or b in seen:
                continue
            if not_(b) in seen:
                return FALSE
            seen.add(b)
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*args):
    out = []
    seen = set()
    for a in args:
        for b in (a.args if a.op == "or" else (a,)):
            if b is TRUE:
                return TRUE
            if b is FALSE or b in seen:
                continue
            if not_(b) in seen:
                return TRUE
            seen.add(b)
            out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def _trynf(t):
    try:
        return nf(t)
    except TooBig:
        return None


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    (a, b), s = _unify((a, b))
    if a is b:
        return TRUE
    d = _trynf(sub(a, b))
    if d is not None:
        if not d:
            return TRUE
        if len(d) == 1 and () in d:
            return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    (a, b), s = _unify((a, b))
    if a is b:
        return FALSE
    d = _trynf(sub(a, b))
    if d is not None:
        if not d:
            return FALSE
        if len(d) == 1 and () in d:
            return TRUE if d[()] < 0 else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return not_(lt(a, b))


def binder(op, bv, lo, hi, *rest):
    """half-open [lo, hi)"""
    if op == "forall":
        sort = "B"
        if rest[0] is TRUE:
            return TRUE
    else:
        sort = rest[-1].sort if op != "last" else "I"
    if op == "last":
        if rest[0] is FALSE:
            return I(-1)
        if lo.op == "c" and hi.op == "c":
            a, b = int(lo.args[0]), int(hi.args[0])
            if b - a <= 16:
                r = I(-1)
                for k in range(a, b):
                    r = ite(subst(rest[0], {bv: I(k)}), I(k), r)
                return r
    if op == "sum":
        if rest[0].op == "c" and rest[0].args[0] == 0:
            return rest[0]
        if rest[0].sort == "B":
            return binder(op, bv, lo, hi, ite(rest[0], IONE, IZERO))
    if lo.op == "c" and hi.op == "c":
        a, b = int(lo.args[0]), int(hi.args[0])
        if b - a <= 16 and op in ("sum", "prod", "forall"):
            vals = [subst(rest[0], {bv: I(k)}) for k in range(a, b)]
            if op == "sum":
                return add(*vals) if vals else const(0, sort)
            if op == "prod":
                return mul(*vals) if vals else const(1, sort)
            return and_(*vals)
    return mk(op, (bv, lo, hi) + tuple(rest), sort)


def sum_(bv, lo, hi, body):
    return binder("sum", bv, lo, hi, body)


def forall(bv, lo, hi, body):
    return binder("forall", bv, lo, hi, body)


def exists(bv, lo, hi, body):
    return not_(forall(bv, lo, hi, not_(body)))


REBUILD = {
    "+": add, "*": mul, "inv": inv, "idiv": idiv, "mod": mod, "ite": ite,
    "not": not_, "and": and_, "or": or_, "eq": eq, "lt": lt,
    "toreal": to_real, "floor": floor, "rint": rint, "trunc": trunc,
}


def rebuild(t, args):
    op = t.op
    if op == "f":
        return app(t.args[0], args[1:], t.sort)
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    raise AssertionError(op)


def subst(t, m, appm=None, _memo=None):
    """Simultaneous substitution of free variables (m: var->term) and of
    function symbols (appm: fname -> python callable(args)->term)."""
    memo = {} if _memo is None else _memo
    keys = frozenset(m)
    akeys = frozenset(appm) if appm else frozenset()

    def go(t):
        if not (t.fv & keys) and not (t.hv & akeys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "v":
            r = m.get(t, t)
        elif t.op in BINDERS:
            bv = t.args[0]
            nb = fresh("b", "I")
            body = [subst(a, {bv: nb}) for a in t.args[3:]]
            r = binder(t.op, nb, go(t.args[1]), go(t.args[2]),
                       *[go(a) for a in body])
        elif t.op == "f" and appm and t.args[0] in appm:
            r = appm[t.args[0]](*[go(a) for a in t.args[1:]])
            if r.sort != t.sort:
                if t.sort == "R":
                    r = to_real(r)
        else:
            r = rebuild(t, [go(a) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- normal form
# polynomial: dict monomial -> Fraction ; monomial: tuple of (atom, exp) sorted
# by atom.id ; atoms are terms (non polynomial).  Indicator atoms are B-sorted.

_nfmemo = {}


def _gone(w, old):
    """coefficients cancel; products of floating point constants (with large
    binary denominators) are identified up to a relative 2^-44"""
    if w == 0:
        return True
    return bool(old) and w.denominator > 1048576 and \
        abs(w) < abs(old) / 17592186044416


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        old = r.get(m, 0)
        w = old + c * v
        if _gone(w, old):
            r.pop(m, None)
        else:
            r[m] = w
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for at, e in a:
        d[at] = e
    for at, e in b:
        if at.sort == "B":
            d[at] = 1
        else:
            d[at] = d.get(at, 0) + e
    # x * inv(x) = 1 is NOT applied here (needs x != 0)
    return tuple(sorted(((k, v) for k, v in d.items() if v),
                        key=lambda kv: kv[0].id))


class TooBig(Exception):
    pass


LIMIT = [20000]


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 40 * LIMIT[0]:
        raise TooBig()
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = mmul(m1, m2)
            old = r.get(m, 0)
            w = old + v1 * v2
            if _gone(w, old):
                r.pop(m, None)
            else:
                r[m] = w
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(a):
    return {((a, 1),): Fraction(1)}


def of_poly(p, sort):
    if not p:
        return const(0, sort)
    terms = []
    for m in sorted(p, key=lambda m: [(a.id, e) for a, e in m]):
        fs = [const(p[m], sort)]
        for a, e in m:
            x = ite(a, const(1, sort), const(0, sort)) if a.sort == "B" else (
                to_real(a) if sort == "R" else a)
            fs.extend([x] * e)
        terms.append(mul(*fs))
    return add(*terms)


def is_pconst(p):
    return not p or (len(p) == 1 and () in p)


def pcval(p):
    return p.get((), Fraction(0))


def nf(t):
    r = _nfmemo.get(t)
    if r is not None:
        return r
    r = _nf(t)
    _nfmemo[t] = r
    return r


def nfterm(t):
    """canonical term equal to t"""
    if t.sort == "B":
        return canon_bool(t)
    return of_poly(nf(t), t.sort)


def _lead(p):
    ms = sorted((m for m in p if m != ()),
                key=lambda m: [(a.id, e) for a, e in m])
    return ms[0]


def _nf(t):
    op = t.op
    if op == "c":
        return pconst(t.args[0])
    if op == "v":
        return patom(t)
    if op == "+":
        r = {}
        for a in t.args:
            r = padd(r, nf(a))
        return r
    if op == "*":
        r = pconst(1)
        for a in t.args:
            r = pmul(r, nf(a))
        return r
    if op == "toreal":
        return nf(t.args[0])
    if op == "ite":
        a, b = nf(t.args[1]), nf(t.args[2])
        if a == b:
            return a
        return padd(b, pmul(ind(t.args[0]), padd(a, b, -1)))
    if op == "inv":
        p = nf(t.args[0])
        if is_pconst(p):
            c = pcval(p)
            return pconst(1 / c) if c else patom(t)
        if len(p) == 1:
            (m, c), = p.items()
            if all(a.sort != "B" for a, e in m):
                out = pconst(1 / c)
                for a, e in m:
                    base = a.args[0] if a.op == "inv" else None
                    if base is not None:
                        # inv(inv(x)): keep as atom (x might be 0)
                        at = patom(mk("inv", (a,), "R"))
                    else:
                        at = patom(mk("inv", (to_real(a),), "R"))
                    for _ in range(e):
                        out = pmul(out, at)
                return out
        c = p[_lead(p)]
        q = {m: v / c for m, v in p.items()}
        return {((mk("inv", (of_poly(q, "R"),), "R"), 1),): 1 / c}
    if op == "f":
        args = tuple(nfterm(a) if isinstance(a, T) else a for a in t.args)
        if args[0] in SPECIAL:
            r = SPECIAL[args[0]](*args[1:])
            if r is not None:
                return r
        return patom(mk("f", args, t.sort))
    if op in ("idiv", "mod"):
        a, b = nfterm(t.args[0]), nfterm(t.args[1])
        if op == "idiv":
            r = idiv(a, b)
        else:
            r = mod(a, b)
        if r.op == "c":
            return pconst(r.args[0])
        if r.op != op:
            return nf(r)
        return patom(r)
    if op == "floor":
        p = nf(t.args[0])
        if is_pconst(p):
            c = pcval(p)
            return pconst(c.numerator // c.denominator)
        # pull out integer parts
        if all(v.denominator == 1 and all(a.sort in "IB" for a, e in m)
               for m, v in p.items()):
            return p
        c = p.get((), Fraction(0))
        k = c.numerator // c.denominator
        q = padd(p, pconst(k), -1)
        return padd(patom(mk("floor", (of_poly(q, "R"),), "I")), pconst(k))
    if op in ("rint", "trunc"):
        p = nf(t.args[0])
        if is_pconst(p):
            c = Fraction(pcval(p))
            return pconst(round(c) if op == "rint" else int(c))
        if all(v.denominator == 1 and all(a.sort in "IB" for a, e in m)
               for m, v in p.items()):
            return p
        return patom(mk(op, (of_poly(p, "R"),), "I"))
    if op == "sum":
        return _nf_sum(t)
    if op in ("min", "max", "prod"):
        bv, lo, hi, body = t.args
        b2, body = _canon_bv(bv, nfterm(body))
        return patom(mk(op, (b2, nfterm(lo), nfterm(hi), body), t.sort))
    if op == "last":
        bv, lo, hi, body = t.args
        b2, body = _canon_bv(bv, canon_bool(body))
        return patom(mk(op, (b2, nfterm(lo), nfterm(hi), body), "I"))
    if t.sort == "B":
        return ind(t)
    raise AssertionError("nf: " + op)


def _canon_bv(bv, body):
    b2 = var("$b%d" % body.depth, "I")
    if b2 is bv:
        return b2, body
    nb = subst(body, {bv: b2})
    # substitution can enable simplification; renormalise once
    nb = canon_bool(nb) if nb.sort == "B" else of_poly(nf(nb), nb.sort)
    if nb.depth != body.depth:
        return _canon_bv(b2, nb)
    return b2, nb


def linear_in(p, v):
    """p (poly) as (coef, rest) with p = coef*v + rest, coef const; else
    None."""
    coef = Fraction(0)
    rest = {}
    for m, c in p.items():
        if any(v in a.fv for a, e in m):
            if m == ((v, 1),):
                coef = c
            else:
                return None
        else:
            rest[m] = c
    return coef, rest


def drop_null(p):
    """x * [x == 0] = 0"""
    bad = []
    for m in p:
        for a, e in m:
            if a.sort == "B" and a.op == "eq":
                x, y = a.args
                if y.op == "c" and y.args[0] == 0:
                    pass
                elif x.op == "c" and x.args[0] == 0:
                    x = y
                else:
                    continue
                if any(b is x for b, _ in m):
                    bad.append(m)
                    break
    if not bad:
        return p
    bad = set(bad)
    return {m: c for m, c in p.items() if m not in bad}


def _nf_sum(t):
    bv, lo, hi, body = t.args
    nb = fresh("s", "I")
    body = subst(body, {bv: nb})
    p = drop_null(nf(body))
    out = {}
    groups = {}
    todo = list(p.items())
    sort = t.sort
    for m, c in todo:
        outer = tuple((a, e) for a, e in m if nb not in a.fv)
        inner = tuple((a, e) for a, e in m if nb in a.fv)
        if not inner:
            if lo is IZERO or True:
                n = nf(sub(hi, lo))
                n = pmul(n, ind(lt(lo, hi)))
            out = padd(out, pmul({outer: c}, n))
            continue
        # pinned index?
        pinned = None
        for a, e in inner:
            if a.sort == "B" and a.op == "eq":
                li = linear_in(nf(sub(a.args[0], a.args[1])), nb)
                if li and abs(li[0]) == 1:
                    w = of_poly({mm: -v / li[0] for mm, v in li[1].items()},
                                "I")
                    if all(v.denominator == 1 for v in li[1].values()) and \
                            all(at.sort in "IB" for mm in li[1]
                                for at, _ in mm):
                        pinned = (a, w)
                        break
        if pinned:
            a, w = pinned
            rest = tuple((x, e) for x, e in inner if x is not a)
            bt = of_poly({rest: Fraction(1)}, sort)
            bt = subst(bt, {nb: w})
            q = pmul({outer: c}, nf(bt))
            q = pmul(q, ind(and_(le(lo, w), lt(w, hi))))
            out = padd(out, q)
            continue
        groups.setdefault(outer, {})
        groups[outer][inner] = groups[outer].get(inner, 0) + c
    lo2, hi2 = nfterm(lo), nfterm(hi)
    for outer, inner in groups.items():
        for im, c in inner.items():
            s = "I" if all(x.sort in "IB" for x, _ in im) else sort
            bt = of_poly({im: Fraction(1)}, s)
            b2, bt2 = _canon_bv(nb, bt)
            a = mk("sum", (b2, lo2, hi2, bt2), s)
            out = padd(out, pmul({outer: c}, patom(a)))
    return out


def _prim(p, pos):
    """scale polynomial so that leading coefficient is +-1 (pos) or 1"""
    c = p[_lead(p)]
    if pos:
        c = abs(c)
    return {m: v / c for m, v in p.items()}


def canon_atom(a):
    """canonical form of an atomic comparison as an indicator polynomial"""
    if a.op == "eq":
        p = nf(sub(a.args[0], a.args[1]))
        if is_pconst(p):
            return pconst(1 if not p else 0)
        if all(at.sort == "B" for m in p for at, e in m):
            r = _ind_special(p, lambda v: v == 0)
            if r is not None:
                return r
        p = _prim(p, False)
        s = a.args[0].sort
        if s == "I":
            l = 1
            from math import lcm
            for v in p.values():
                l = lcm(l, v.denominator)
            p = {m: v * l for m, v in p.items()}
        rhs = const(-p.get((), Fraction(0)), s)
        q = {m: v for m, v in p.items() if m != ()}
        at = mk("eq", (of_poly(q, s), rhs), "B")
        return patom(at)
    if a.op == "lt":
        p = nf(sub(a.args[0], a.args[1]))
        if is_pconst(p):
            return pconst(1 if pcval(p) < 0 else 0)
        if all(at.sort == "B" for m in p for at, e in m):
            r = _ind_special(p, lambda v: v < 0)
            if r is not None:
                return r
        s = a.args[0].sort
        p = _prim(p, True)
        if s == "I":
            from math import lcm
            l = 1
            for v in p.values():
                l = lcm(l, v.denominator)
            p = {m: v * l for m, v in p.items()}
            if p[_lead(p)] < 0:
                # p < 0  <=> not(p >= 0) <=> not(-p <= 0) <=> not(-p < 1)
                q = {m: -v for m, v in p.items()}
                rhs = const(1 - q.get((), Fraction(0)), s)
                q = {m: v for m, v in q.items() if m != ()}
                at = mk("lt", (of_poly(q, s), rhs), "B")
                return padd(pconst(1), patom(at), -1)
        rhs = const(-p.get((), Fraction(0)), s)
        q = {m: v for m, v in p.items() if m != ()}
        at = mk("lt", (of_poly(q, s), rhs), "B")
        return patom(at)
    raise AssertionError(a.op)


def _ind_special(p, test):
    """comparison of a polynomial over indicators only: expand truth table"""
    atoms = sorted({at for m in p for at, e in m}, key=lambda x: x.id)
    if len(atoms) > 4:
        return None
    out = {}
    for vals in itertools.product((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, vals))
        s = Fraction(0)
        for m, c in p.items():
            if all(env[a] for a, e in m):
                s += c
        if test(s):
            term = pconst(1)
            for a, v in env.items():
                term = pmul(term, patom(a) if v else
                            padd(pconst(1), patom(a), -1))
            out = padd(out, term)
    return out


_indmemo = {}


def ind(c):
    r = _indmemo.get(c)
    if r is None:
        r = _indmemo[c] = _ind(c)
    return r


def _ind(c):
    if c is TRUE:
        return pconst(1)
    if c is FALSE:
        return {}
    if c.op == "not":
        return padd(pconst(1), ind(c.args[0]), -1)
    if c.op == "and":
        r = pconst(1)
        for a in c.args:
            r = pmul(r, ind(a))
        return r
    if c.op == "or":
        r = pconst(1)
        for a in c.args:
            r = pmul(r, padd(pconst(1), ind(a), -1))
        return padd(pconst(1), r, -1)
    if c.op in ("eq", "lt"):
        return canon_atom(c)
    if c.op == "v":
        return patom(c)
    if c.op == "f":
        args = tuple(nfterm(a) if isinstance(a, T) else a for a in c.args)
        return patom(mk("f", args, "B"))
    if c.op == "forall":
        bv, lo, hi, body = c.args
        b2, body = _canon_bv(bv, canon_bool(body))
        if body is TRUE:
            return pconst(1)
        return patom(mk("forall", (b2, nfterm(lo), nfterm(hi), body), "B"))
    if c.op == "ite":
        return padd(pmul(ind(c.args[0]), ind(c.args[1])),
                    pmul(padd(pconst(1), ind(c.args[0]), -1), ind(c.args[2])))
    raise AssertionError("ind: " + c.op)


def canon_bool(c):
    """canonical boolean term (via indicator polynomial)"""
    p = ind(c)
    if not p:
        return FALSE
    if is_pconst(p):
        return TRUE if pcval(p) == 1 else FALSE
    if len(p) == 1:
        (m, v), = p.items()
        if v == 1:
            return and_(*[a for a, e in m])
    q = padd(pconst(1), p, -1)
    if len(q) == 1:
        (m, v), = q.items()
        if v == 1:
            return not_(and_(*[a for a, e in m]))
    return mk("eq", (of_poly(p, "I"), IONE), "B")


SPECIAL = {}


def _trig_sign(p):
    """(sign, poly) with poly's leading coefficient positive"""
    if is_pconst(p):
        c = pcval(p)
        return (-1, pconst(-c)) if c < 0 else (1, p)
    if p[_lead(p)] < 0:
        return -1, {m: -v for m, v in p.items()}
    return 1, p


def _sp_sin(x):
    p = nf(x)
    if not p:
        return {}
    s, q = _trig_sign(p)
    r = _inverse_trig("sin", q)
    if r is not None:
        return {m: s * c for m, c in r.items()}
    return {((mk("f", ("sin", of_poly(q, "R")), "R"), 1),): Fraction(s)}


def _inverse_trig(fn, p):
    """sin or cos of an inverse function (of a real argument in its domain)
    """
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "f":
        return None
    a = m[0][0]

    def other(z):
        return nf(app("sqrt", (sub(ONE, mul(z, z)),), "R"))
    if a.args[0] == "arcsin":
        return nf(a.args[1]) if fn == "sin" else other(a.args[1])
    if a.args[0] == "arccos":
        return nf(a.args[1]) if fn == "cos" else other(a.args[1])
    if a.args[0] in ("arctan2", "arctan"):
        y = to_real(a.args[1])
        x = to_real(a.args[2]) if a.args[0] == "arctan2" else ONE
        r = app("sqrt", (add(mul(x, x), mul(y, y)),), "R")
        return nf(mul(y if fn == "sin" else x, inv(r)))
    return None


def _sp_cos(x):
    p = nf(x)
    if not p:
        return pconst(1)
    s, q = _trig_sign(p)
    r = _inverse_trig("cos", q)
    if r is not None:
        return r
    return {((mk("f", ("cos", of_poly(q, "R")), "R"), 1),): Fraction(1)}


def _sp_exp(x):
    p = nf(x)
    if not p:
        return pconst(1)
    return None


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def _sp_sqrt(x):
    p = nf(x)
    if is_pconst(p):
        c = pcval(p)
        if c >= 0:
            a, b = _isqrt(c.numerator), _isqrt(c.denominator)
            if a is not None and b is not None:
                return pconst(Fraction(a, b))
    return None


def _sp_abs(x):
    p = nf(x)
    if is_pconst(p):
        return pconst(abs(pcval(p)))
    s, q = _trig_sign(p)
    if s < 0:
        return patom(mk("f", ("abs", of_poly(q, x.sort)), x.sort))
    return None


SPECIAL.update(sin=_sp_sin, cos=_sp_cos, exp=_sp_exp, sqrt=_sp_sqrt,
               abs=_sp_abs)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if o == "c":
        return str(t.args[0])
    if o == "v":
        return t.args[0]
    if o == "f":
        return "%s(%s)" % (t.args[0], ", ".join(show(a) for a in t.args[1:]))
    if o in "+*":
        return "(" + (" %s " % o).join(show(a) for a in t.args) + ")"
    if o in BINDERS:
        return "%s{%s in %s..%s | %s}" % (
            o, show(t.args[0]), show(t.args[1]), show(t.args[2]),
            " ; ".join(show(a) for a in t.args[3:]))
    return "%s(%s)" % (o, ", ".join(show(a) for a in t.args))


def show_poly(p, n=6):
    out = []
    for m in list(p)[:n]:
        out.append("%s*%s" % (p[m], "*".join(
            ("[%s]" % show(a) if a.sort == "B" else show(a)) +
            ("^%d" % e if e != 1 else "") for a, e in m) or "1"))
    if len(p) > n:
        out.append("... (%d monomials)" % len(p))
    return " + ".join(out)


def subterms(x):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        todo.extend(a for a in y.args if isinstance(a, T))
