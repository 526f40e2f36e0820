"""Obligation prover: polynomial normal form + case analysis, z3 for
conditions, index arithmetic and residual nonlinear goals."""
import sys
import time
import itertools
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3
from . import terms as t

STATS = {"z3_calls": 0, "z3_time": 0.0, "nf_proved": 0, "z3_proved": 0,
         "cache": 0}
TIMEOUT_MS = 3000

SORTS = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
_zmemo = {}
_keep = []


def _q(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


_opq = {}


def to_z3(x):
    r = _zmemo.get(x)
    if r is None:
        r = _zmemo[x] = _to_z3(x)
    return r


def _opaque(x):
    """binder term as a function of its free variables; the function is
    named after the term with its free variables replaced by placeholders in
    order of occurrence, so that renamed terms share it"""
    fvs = []
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "v":
            if y in x.fv:
                fvs.append(y)
            continue
        todo.extend(a for a in reversed(y.args)
                    if isinstance(a, t.T) and a.fv)
    key = x
    if fvs:
        key = t.subst(x, {v: t.var("$%s%d" % (v.sort, i), v.sort)
                          for i, v in enumerate(fvs)})
        try:
            key = t.nfterm(key)
        except t.TooBig:
            pass
    name = "opq%d" % key.id
    if not fvs:
        return z3.Const(name, SORTS[x.sort])
    f = z3.Function(name, *([SORTS[v.sort] for v in fvs] + [SORTS[x.sort]]))
    return f(*[to_z3(v) for v in fvs])


def _to_z3(x):
    op = x.op
    if op == "c":
        v = x.args[0]
        if x.sort == "B":
            return z3.BoolVal(bool(v))
        if x.sort == "I":
            return z3.IntVal(int(v))
        return _q(v)
    if op == "v":
        return z3.Const(x.args[0], SORTS[x.sort])
    if op == "f":
        args = x.args[1:]
        if not args:
            return z3.Const(x.args[0] + "()", SORTS[x.sort])
        f = z3.Function(x.args[0], *([SORTS[a.sort] for a in args] +
                                     [SORTS[x.sort]]))
        return f(*[to_z3(a) for a in args])
    if op in t.BINDERS:
        if op == "forall":
            bv, lo, hi, body = x.args
            b = to_z3(bv)
            return z3.ForAll([b], z3.Implies(
                z3.And(to_z3(lo) <= b, b < to_z3(hi)), to_z3(body)))
        return _opaque(x)
    a = [to_z3(y) for y in x.args]
    if op == "+":
        r = a[0]
        for y in a[1:]:
            r = r + y
        return r
    if op == "*":
        r = a[0]
        for y in a[1:]:
            r = r * y
        return r
    if op == "inv":
        return z3.RealVal(1) / a[0]
    if op == "idiv":
        # floor division for either divisor sign
        b = x.args[1]
        if b.op == "c" and b.args[0] > 0:
            return a[0] / a[1]
        return z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
    if op == "mod":
        b = x.args[1]
        if b.op == "c" and b.args[0] > 0:
            return a[0] % a[1]
        return a[0] - a[1] * z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
    if op == "ite":
        return z3.If(*a)
    if op == "not":
        return z3.Not(a[0])
    if op == "and":
        return z3.And(*a)
    if op == "or":
        return z3.Or(*a)
    if op == "eq":
        return a[0] == a[1]
    if op == "lt":
        return a[0] < a[1]
    if op == "toreal":
        return z3.ToReal(a[0])
    if op == "floor":
        return z3.ToInt(a[0])
    if op == "trunc":
        return z3.If(a[0] < 0, -z3.ToInt(-a[0]), z3.ToInt(a[0]))
    if op == "rint":
        q = z3.ToInt(a[0] + z3.RealVal("1/2"))
        return z3.If(z3.And(z3.ToReal(q) == a[0] + z3.RealVal("1/2"),
                            q % 2 == 1), q - 1, q)
    raise AssertionError(op)


_AXF = {}


_CAN = {}
_VALB = ("sum", "prod", "min", "max", "last")


def as_int(x):
    """integer-sorted term equal to the real-sorted x, or None"""
    if x.sort == "I":
        return x
    if x.op == "c":
        return t.I(int(x.args[0])) if x.args[0] == int(x.args[0]) else None
    if x.op == "toreal":
        return x.args[0]
    if x.op in ("+", "*", "ite"):
        c = x.args[:1] if x.op == "ite" else ()
        a = [as_int(y) for y in x.args[len(c):]]
        return None if None in a else t.rebuild(x, list(c) + a)
    if x.op == "sum":
        b = as_int(x.args[3])
        return None if b is None else t.binder("sum", *x.args[:3] + (b,))
    return None


def canon(x):
    """equal bound terms get one representative (normal form), so that z3
    sees them as one constant"""
    r = _CAN.get(x)
    if r is not None:
        return r
    if x.op in ("c", "v") or (x.op == "f" and len(x.args) == 1):
        r = x
    elif x.op in _VALB:
        try:
            r = None
            if x.op == "sum" and x.sort == "R":
                r = as_int(x)
                if r is not None:
                    r = t.mk("toreal", (t.nfterm(r),), "R")
            if r is None:
                r = t.nfterm(x)
        except t.TooBig:
            r = x
    elif x.op == "forall":
        r = t.mk("forall", x.args[:1] + tuple(canon(a) for a in x.args[1:]),
                 "B")
    else:
        a = [canon(a) if isinstance(a, t.T) else a for a in x.args]
        if all(p is q for p, q in zip(a, x.args)):
            r = x
        else:
            try:
                r = t.mk(x.op, tuple(a), x.sort) if x.op in (
                    "lt", "eq") else t.rebuild(x, a)
            except t.TooBig:
                r = x
    _CAN[x] = r
    return r


def _le(a, b):
    if a.op == "c" and b.op == "c":
        return t.le(a, b)
    a, b = t._unify((a, b))[0]
    return t.mk("not", (t.mk("lt", (b, a), "B"),), "B")


def _lt(a, b):
    if a.op == "c" and b.op == "c":
        return t.lt(a, b)
    a, b = t._unify((a, b))[0]
    return t.mk("lt", (a, b), "B")


_INST = {}


def fun_axioms(terms_, binders=True):
    """ground instances of library-function axioms for apps that occur"""
    out = []
    seen = set()
    apps, bnd, done = {}, [], set()
    todo = list(terms_)
    for rnd in range(4):
        stack = todo
        todo = []
        while stack:
            x = stack.pop()
            if x in seen or not isinstance(x, t.T):
                continue
            seen.add(x)
            if x.op == "f":
                ax = _AXF.get(x.args[0])
                apps.setdefault(x.args[0], []).append(x)
                if ax:
                    todo.extend(ax(x, *x.args[1:]))
            elif x.op in ("min", "max", "last"):
                bnd.append(x)
            stack.extend(a for a in x.args if isinstance(a, t.T))
        # pairwise monotonicity/injectivity is left to contracts
        for x in bnd[:14] if binders else ():
            todo.extend(_ax_binder(x, apps, done))
        todo = [canon(x) for x in todo]
        out.extend(todo)
        if not todo:
            break
    return out


_wit = {}


def _ax_binder(x, apps, done):
    """extremum of f over lo..hi: attained at a witness, bounds every f(k)
    for the index terms k that occur at the same argument position;
    last k in lo..hi with c(k) (-1 if there is none): satisfies c, is not
    smaller than any such k with c(k)"""
    bv, lo, hi, body = x.args
    out = []
    fw = body
    if x not in done:
        done.add(x)
        if x.op == "last":
            fw = t.subst(body, {bv: x})
            out.append(t.or_(t.mk("eq", (x, t.I(-1)), "B"), t.and_(
                _le(lo, x), _lt(x, hi), fw)))
        else:
            w = _wit.get(x)
            if w is None:
                w = _wit[x] = t.app("wit%d" % x.id, tuple(sorted(
                    x.fv, key=lambda v: v.id)), "I")
            fw = t.subst(body, {bv: w})
            ne = t.lt(lo, hi)
            out.append(t.implies(ne, t.and_(_le(lo, w), _lt(w, hi),
                                            t.mk("eq", (x, fw), "B"))))
    cands = set()
    st, seen = [body, fw], set()
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "f":
            if y.args[0] in _AXF:
                out.extend(_AXF[y.args[0]](y, *y.args[1:]))
            for k, a in enumerate(y.args[1:]):
                if a is bv:
                    for z in apps.get(y.args[0], ())[:24]:
                        if not (z.args[1 + k].fv & {bv}):
                            cands.add(z.args[1 + k])
        st.extend(a for a in y.args if isinstance(a, t.T))
    for k in sorted(cands, key=lambda c: c.id)[:16]:
        if (x, k) in done:
            continue
        done.add((x, k))
        if (x, k) not in _INST:
            fk = t.subst(body, {bv: k})
            rg = t.and_(_le(lo, k), _lt(k, hi))
            if x.op == "last":
                r = t.implies(t.and_(rg, fk), _le(k, x))
            else:
                r = t.implies(rg, _le(x, fk) if x.op == "min" else
                              _le(fk, x))
            _INST[(x, k)] = canon(r)
        out.append(_INST[(x, k)])
    return [o for o in out if o is not t.TRUE]


def _ax_sqrt(x, a):
    return [t.implies(t.ge(a, t.ZERO),
                      t.and_(t.ge(x, t.ZERO), t.mk("eq", (t.mul(x, x), a), "B"))),
            t.implies(t.gt(a, t.ZERO), t.gt(x, t.ZERO))]


def _ax_sin(x, a):
    return [t.le(x, t.ONE), t.ge(x, t.R(-1))]


def _ax_abs(x, a):
    z = t.const(0, a.sort)
    return [t.mk("eq", (x, t.ite(t.lt(a, z), t.neg(a), a)), "B")]


def _ax_exp(x, a):
    return [t.gt(x, t.ZERO)]


_AXF.update(sqrt=_ax_sqrt, sin=_ax_sin, cos=_ax_sin, abs=_ax_abs, exp=_ax_exp)

_cache = {}
_HB = {}


def has_binder(x):
    r = _HB.get(x)
    if r is None:
        r = x.op in ("min", "max", "last") or any(
            has_binder(a) for a in x.args if isinstance(a, t.T))
        _HB[x] = r
    return r


def check_sat(fs, timeout=None, want_model=False):
    """fs: iterable of boolean terms; returns 'sat'|'unsat'|'unknown'
    (and model)"""
    fs = [f for f in fs if f is not t.TRUE]
    if any(f is t.FALSE for f in fs):
        return ("unsat", None) if want_model else "unsat"
    key = frozenset(f.id for f in fs)
    if not want_model and key in _cache:
        STATS["cache"] += 1
        return _cache[key]
    s = z3.Solver()
    ms = timeout or TIMEOUT_MS
    # deterministic resource limit; the wall limit is only a safety net
    s.set("rlimit", ms * 2000)
    s.set("timeout", ms * 8)
    s.set("random_seed", 1)
    fs = [canon(f) for f in fs]
    for f in fs:
        s.add(to_z3(f))
    t0 = time.time()
    ax = fun_axioms(fs, False)
    for f in ax:
        s.add(to_z3(f))
    r = str(s.check())
    if r != "unsat" and any(has_binder(f) for f in fs):
        more = [f for f in fun_axioms(fs) if f not in ax]
        if more:
            for f in more:
                s.add(to_z3(f))
            r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    if want_model:
        return r, (s.model() if r == "sat" else None)
    _cache[key] = r
    return r


def relevant(facts, goal):
    """facts whose free symbols are connected with the goal"""
    syms = set(goal.fv) | set(goal.hv)
    rest = [(f, set(f.fv) | set(f.hv)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, s in rest:
            if not s or s & syms:
                out.append(f)
                if not s <= syms:
                    syms |= s
                changed = True
            else:
                nxt.append((f, s))
        rest = nxt
    return out


def entails(facts, goal, timeout=None):
    if goal is t.TRUE:
        return True
    if goal is t.FALSE:
        return check_sat(facts, timeout) == "unsat"
    if goal in facts:
        return True
    rel = relevant(facts, goal)
    if check_sat(rel + [t.not_(goal)], timeout) == "unsat":
        return True
    # once more with the bound indicators that the facts decide removed
    g = goal.args[0] if goal.op == "not" else goal
    if g.op in ("eq", "lt") and g.args[0].sort != "B" and has_sum(g):
        try:
            p = t.nf(t.sub(*g.args))
            q = _simp_poly(p, rel)
            for a in {a for m in q for a, _ in m if a.sort == "B"}:
                if not has_sum(a):
                    for lit, k in ((a, 1), (t.not_(a), 0)):
                        if check_sat(rel + [t.not_(lit)], 500) == "unsat":
                            q = _psubst_ind(q, a, k)
                            break
        except t.TooBig:
            return False
        if q != p:
            s = "R" if "R" in (g.args[0].sort, g.args[1].sort) else "I"
            if s == "R" or all(c.denominator == 1 for c in q.values()):
                g = t.mk(g.op, (t.of_poly(q, s), t.const(0, s)), "B")
                if goal.op == "not":
                    g = t.not_(g)
                return check_sat(rel + [t.not_(g)], timeout) == "unsat"
    return False


class Result(object):
    def __init__(self, status, how="", detail="", model=None, facts=None):
        self.status = status          # proved / refuted / unknown
        self.how = how
        self.detail = detail
        self.model = model
        self.facts = facts

    def __bool__(self):
        return self.status == "proved"


def _psubst_ind(p, atom, val):
    out = {}
    for m, c in p.items():
        if any(a is atom for a, e in m):
            if not val:
                continue
            m = tuple((a, e) for a, e in m if a is not atom)
        w = out.get(m, 0) + c
        if w == 0:
            out.pop(m, None)
        else:
            out[m] = w
    return out


def batoms(p):
    s = set()
    for m in p:
        for a, e in m:
            if a.sort == "B":
                s.add(a)
    return sorted(s, key=lambda a: a.id)


def deep_atoms(x, acc=None, bound=()):
    """atomic conditions nested in a term, with the binder stack"""
    if acc is None:
        acc = []
    if x.op in t.BINDERS:
        for a in x.args[1:3]:
            deep_atoms(a, acc, bound)
        for a in x.args[3:]:
            deep_atoms(a, acc, bound + ((x.args[0], x.args[1], x.args[2]),))
        return acc
    if x.sort == "B" and x.op in ("eq", "lt"):
        acc.append((x, bound))
    for a in x.args:
        if isinstance(a, t.T):
            deep_atoms(a, acc, bound)
    return acc


def simp(x, facts, depth=0):
    """replace conditions nested in x that are decided by facts (+ binder
    ranges)"""
    memo = {}

    def go(y):
        if y in memo:
            return memo[y]
        if y.op in ("c", "v"):
            r = y
        elif y.op in t.BINDERS:
            bv = y.args[0]
            nb = t.fresh("q", "I")
            lo, hi = go(y.args[1]), go(y.args[2])
            f2 = facts + [t.le(lo, nb), t.lt(nb, hi)]
            body = [simp(t.subst(a, {bv: nb}), f2, depth + 1)
                    for a in y.args[3:]]
            r = t.binder(y.op, nb, lo, hi, *body)
        elif y.sort == "B" and y.op in ("eq", "lt"):
            z = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                              for a in y.args])
            if z.op == "c":
                r = z
            elif entails(facts, z, 1000):
                r = t.TRUE
            elif entails(facts, t.not_(z), 1000):
                r = t.FALSE
            else:
                r = z
        elif y.op == "ite":
            c = go(y.args[0])
            if c is t.TRUE:
                r = go(y.args[1])
            elif c is t.FALSE:
                r = go(y.args[2])
            else:
                r = t.ite(c, simp(y.args[1], facts + [c], depth + 1),
                          simp(y.args[2], facts + [t.not_(c)], depth + 1))
        elif y.op == "f" and len(y.args) == 1:
            r = y
        elif y.op in ("idiv", "mod"):
            r = divmod_simp(y.op, go(y.args[0]), go(y.args[1]), facts)
        else:
            r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                              for a in y.args])
        memo[y] = r
        return r
    return go(x)


def divmod_simp(op, a, b, facts):
    """idiv/mod of a polynomial: multiples of the divisor are split off, the
    remainder is dropped when it provably lies in [0, divisor)"""
    if b.op == "c":
        if b.args[0] == 0:
            return t.rebuild_op(op, a, b)
        key, kc = (), b.args[0]
    else:
        pb = t.nf(b)
        if len(pb) != 1:
            return t.rebuild_op(op, a, b)
        (key, kc), = pb.items()
    q, r = {}, {}
    for m, c in t.nf(a).items():
        d = dict(m)
        ok = (c / kc).denominator == 1
        for x, e in key:
            if d.get(x, 0) < e:
                ok = False
        if ok and kc:
            for x, e in key:
                d[x] -= e
            mm = tuple((x, d[x]) for x, e in m if d[x])
            if any(x.sort not in "IB" for x, e in mm):
                ok = False
        if ok:
            q[mm] = c / kc
        else:
            r[m] = c
    if not q and not r:
        q = {}
    qt, rt = t.of_poly(q, "I"), t.of_poly(r, "I")
    if q and not entails(facts, t.ne(b, t.IZERO), 1000):
        return t.rebuild_op(op, a, b)
    if rt is t.IZERO or entails(facts, t.and_(
            t.le(t.IZERO, rt), t.lt(rt, b)), 1000):
        return qt if op == "idiv" else rt
    if b.op != "c" and r.get((), 0) == 1 and len(r) > 1 and entails(
            facts, t.le(t.IONE, b), 1000):
        # successor: x + 1 carries exactly when x mod b + 1 == b
        p = t.of_poly({m: c for m, c in r.items() if m}, "I")
        m = divmod_simp("mod", p, b, facts)
        wrap = t.eq(t.add(m, t.IONE), b)
        if op == "mod":
            return t.ite(wrap, t.IZERO, t.add(m, t.IONE))
        return t.add(qt, divmod_simp("idiv", p, b, facts),
                     t.ite(wrap, t.IONE, t.IZERO))
    x = t.rebuild_op(op, rt, b)
    return t.add(qt, x) if op == "idiv" else x


def has_cond(x):
    return any(True for _ in deep_atoms(x)) or has_div(x)


_HD = {}


def has_div(x):
    r = _HD.get(x)
    if r is None:
        r = x.op in ("idiv", "mod") or any(
            has_div(a) for a in x.args if isinstance(a, t.T))
        _HD[x] = r
    return r


TRIG = [True]


def _rewrite_poly(p):
    """sqrt(x)^2 -> x, cos^2 -> 1 - sin^2, exp rules"""
    changed = True
    while changed:
        changed = False
        for m in list(p):
            for k, (a, e) in enumerate(m):
                if a.op == "f" and e >= 2 and a.args[0] in ("sqrt", "cos"):
                    c = p.pop(m)
                    rest = m[:k] + (((a, e - 2),) if e > 2 else ()) + m[k + 1:]
                    if a.args[0] == "sqrt":
                        rep = t.nf(a.args[1])
                    else:
                        s = t.nf(t.app("sin", (a.args[1],), "R"))
                        rep = t.padd(t.pconst(1), t.pmul(s, s), -1)
                    p = t.padd(p, t.pmul({rest: c}, rep))
                    changed = True
                    break
            if changed:
                break
    return p


_DR = {}


def _deep_rewrite(p):
    """_rewrite_poly inside the arguments of function atoms"""
    mp = {}
    for m in p:
        for a, e in m:
            if a.op != "inv" and (a.op != "f" or len(a.args) < 2):
                continue
            if a not in _DR:
                new = []
                for x in a.args if a.op == "inv" else a.args[1:]:
                    if isinstance(x, t.T) and x.sort == "R":
                        q = t.nf(x)
                        r = _deep_rewrite(_rewrite_poly(dict(q)))
                        if r != q:
                            x = t.of_poly(r, "R")
                    new.append(x)
                b = t.inv(new[0]) if a.op == "inv" else t.mk(
                    "f", (a.args[0],) + tuple(new), a.sort)
                _DR[a] = None if b is a else t.nf(b)
            if _DR[a] is not None:
                mp[a] = _DR[a]
    return _replace_atoms(p, mp) if mp else p


def _clear_inv(p, facts, side):
    """multiply through by denominators; side collects d != 0 conditions"""
    for _ in range(12):
        invs = {}
        for m in p:
            for a, e in m:
                if a.op == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        # choose the innermost/largest first deterministically
        a = max(invs, key=lambda x: x.id)
        k = invs[a]
        d = t.nf(a.args[0])
        side.append(t.ne(a.args[0], t.ZERO))
        out = {}
        for m, c in p.items():
            e0 = 0
            mm = []
            for b, e in m:
                if b is a:
                    e0 = e
                else:
                    mm.append((b, e))
            q = {tuple(mm): c}
            for _i in range(k - e0):
                q = t.pmul(q, d)
            out = t.padd(out, q)
        p = _rewrite_poly(out)
    return p


def _nonzero_fact(facts, s):
    """s: not(0 = x); some fact states P > 0 or P != 0 with P a multiple of
    x"""
    if s.op != "not" or s.args[0].op != "eq":
        return False
    try:
        def norm(x):
            return _deep_rewrite(_rewrite_poly(dict(t.nf(x))))
        d = norm(t.sub(*s.args[0].args))
        for f in facts:
            for g in (f.args if f.op == "and" else (f,)):
                if g.op == "not" and g.args[0].op == "eq":
                    g = g.args[0]
                elif g.op != "lt":
                    continue
                if g.args[0].sort == "B":
                    continue
                q = norm(t.sub(*g.args))
                if len(q) != len(d) or set(q) != set(d):
                    continue
                m = next(iter(d))
                k = q[m] / d[m]
                if all(q[x] == k * d[x] for x in d):
                    return True
    except t.TooBig:
        pass
    return False


def prove_eq(facts, a, b, depth=0, budget=None):
    facts = list(facts)
    if budget is None:
        budget = [400, time.time() + 60]
    if a is b:
        return Result("proved", "nf")
    a, b = pin(a, facts), pin(b, facts)
    r = _sum_pointwise(facts, a, b, depth, budget)
    if r is not None:
        return r
    r = _split_terms(facts, a, b, depth, budget)
    if r is not None:
        return r
    a, b = _resolve_last(facts, a, b)
    try:
        if a.sort == "B":
            p = t.padd(t.ind(a), t.ind(b), -1)
        else:
            p = t.nf(t.sub(a, b))
        r = _prove_zero(facts, p, depth, budget)
    except t.TooBig:
        r = Result("unknown", "nf", "normal form too large")
    return r


def _free_conds(x, acc, bound=frozenset(), seen=None):
    """conditions of conditionals in x that do not depend on bound variables,
    outermost first"""
    seen = set() if seen is None else seen
    if (x, bound) in seen:
        return acc
    seen.add((x, bound))
    if x.op == "ite" and not (x.args[0].fv & bound) and \
            x.args[0] not in acc:
        acc.append(x.args[0])
    b2 = bound | {x.args[0]} if x.op in t.BINDERS else bound
    for a in x.args:
        if isinstance(a, t.T):
            _free_conds(a, acc, b2, seen)
    return acc


def replace_bool(x, c, val):
    memo = {}

    def go(y):
        if y is c:
            return val
        if y.op in ("c", "v") or not (c.fv <= y.fv):
            return y
        r = memo.get(y)
        if r is None:
            if y.op in t.BINDERS:
                r = t.binder(y.op, y.args[0], *[go(a) for a in y.args[1:]])
            else:
                r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                                  for a in y.args])
            memo[y] = r
        return r
    return go(x)


def _natoms(cs):
    n = set()
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c.op in ("and", "or", "not"):
            todo.extend(c.args)
        else:
            n.add(c)
    return len(n)


def _split_terms(facts, a, b, depth, budget):
    """many conditions: split on whole conditions of the terms instead of
    expanding them into indicator polynomials; None when not worth it"""
    if a.sort == "B":
        return None
    conds = _free_conds(t.mk("eq", (a, b), "B"), [])
    conds = [c for c in conds if not has_q(c)]
    if not conds or _natoms(conds) < (1 if has_last(a) or has_last(b)
                                      else 5):
        return None
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]:
        return Result("unknown", "budget", "case split")
    c = conds[0]
    for val, lit in ((t.TRUE, c), (t.FALSE, t.not_(c))):
        f2 = facts + [x for x in (lit.args if lit.op == "and" else (lit,))]
        if check_sat(relevant(f2, lit), 1500) == "unsat":
            continue
        x, y = replace_bool(a, c, val), replace_bool(b, c, val)
        for lt in (lit.args if lit.op == "and" else (lit,)):
            if lt.op == "not":
                x = replace_bool(x, lt.args[0], t.FALSE)
                y = replace_bool(y, lt.args[0], t.FALSE)
            else:
                x = replace_bool(x, lt, t.TRUE)
                y = replace_bool(y, lt, t.TRUE)
            if lt.op == "eq" and lt.args[0].sort == "I":
                u, w = lt.args
                if u.op == "c" or u.depth < w.depth:
                    u, w = w, u
                if u.op in ("f", "v") and not has_sub(w, u):
                    x, y = replace_term(x, u, w), replace_term(y, u, w)
        if x is y:
            continue
        r = prove_eq(f2, x, y, depth + 1, budget)
        if not r:
            return r
    return Result("proved", "cases")


def has_sub(x, u):
    return x is u or any(has_sub(a, u) for a in x.args
                         if isinstance(a, t.T) and a.depth >= u.depth)


def _eq_atoms(x, bv, acc, seen):
    if x in seen or bv not in x.fv:
        return acc
    seen.add(x)
    if x.op == "eq" and x.args[0].sort == "I":
        acc.append(x)
    else:
        for a in x.args:
            if isinstance(a, t.T):
                _eq_atoms(a, bv, acc, seen)
    return acc


_PIN = {}


def pin(x, facts):
    """sum_b f(b) with f(b) = 0 wherever b != w becomes f(w)"""
    memo = {}

    def go(y):
        if y.op in ("c", "v") or not has_sum(y):
            return y
        r = memo.get(y)
        if r is not None:
            return r
        if y.op == "sum":
            bv, lo, hi, body = y.args
            lo, hi = go(lo), go(hi)
            # facts about the bound variable are not needed: w is checked
            body = go(body)
            r = None
            for e in _eq_atoms(body, bv, [], set()):
                li = t.linear_in(t.nf(t.sub(e.args[0], e.args[1])), bv)
                if not li or abs(li[0]) != 1 or e.fv & _binders(body):
                    continue
                if replace_bool(body, e, t.FALSE) is not t.const(
                        0, body.sort):
                    continue
                w = t.of_poly({m: -c / li[0] for m, c in li[1].items()},
                              "I")
                val = t.subst(body, {bv: w})
                rng = t.and_(t.le(lo, w), t.lt(w, hi))
                if not (w.fv & _binders(x)) and entails(facts, rng, 1000):
                    rng = t.TRUE
                r = t.ite(rng, val, t.const(0, body.sort))
                break
            if r is None:
                r = t.sum_(bv, lo, hi, body)
        elif y.op in t.BINDERS:
            r = t.binder(y.op, y.args[0], *[go(a) for a in y.args[1:]])
        else:
            r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                              for a in y.args])
        memo[y] = r
        return r
    return go(x)


_HS = {}


def has_sum(x):
    r = _HS.get(x)
    if r is None:
        r = _HS[x] = x.op == "sum" or any(
            has_sum(a) for a in x.args if isinstance(a, t.T))
    return r


_BV = {}


def _binders(x):
    r = _BV.get(x)
    if r is None:
        r = frozenset()
        if x.op in t.BINDERS:
            r = frozenset([x.args[0]])
        for a in x.args:
            if isinstance(a, t.T):
                r = r | _binders(a)
        _BV[x] = r
    return r


def _sum_pointwise(facts, a, b, depth, budget):
    """equal ranges and pointwise equal bodies"""
    if a.op != "sum" or b.op != "sum" or depth > 6:
        return None
    if t.nf(t.sub(a.args[1], b.args[1])) or \
            t.nf(t.sub(a.args[2], b.args[2])):
        return None
    nb = t.fresh("k", "I")
    f2 = facts + [t.le(a.args[1], nb), t.lt(nb, a.args[2])]
    r = prove_eq(f2, t.subst(a.args[3], {a.args[0]: nb}),
                 t.subst(b.args[3], {b.args[0]: nb}), depth + 1,
                 [budget[0] // 2, time.time() + max(
                     0, budget[1] - time.time()) / 2])
    return r if r else None


_HL = {}


def has_last(x):
    r = _HL.get(x)
    if r is None:
        r = _HL[x] = x.op == "last" or any(
            has_last(a) for a in x.args if isinstance(a, t.T))
    return r


def index_vars(facts, hi):
    out = []
    for f in facts:
        for g in (f.args if f.op == "and" else (f,)):
            if g.op == "lt" and g.args[0].op == "v" and \
                    g.args[0].sort == "I" and t.nf(g.args[1]) == \
                    t.nf(hi) and g.args[0] not in out:
                out.append(g.args[0])
    return out


def _resolve_last(facts, a, b):
    """last{k | c(k)} is v when c(v) and c(k) for no larger k (v an index
    variable of the range), -1 when c(k) for no k"""
    for _ in range(8):
        found = []

        def find(y, bound):
            if not has_last(y):
                return
            if y.op == "last" and not (y.fv & bound):
                found.append(y)
            b2 = bound | {y.args[0]} if y.op in t.BINDERS else bound
            for z in y.args:
                if isinstance(z, t.T):
                    find(z, b2)
        find(t.mk("eq", (a, b), "B"), frozenset())
        for y in sorted(set(found), key=lambda z: z.depth):
            bv, lo, hi, c = y.args
            nb = t.fresh("u", "I")
            cb = t.subst(c, {bv: nb})
            rng = [t.le(lo, nb), t.lt(nb, hi), cb]
            val = None
            if check_sat(facts + rng, 1500) == "unsat":
                val = t.I(-1)
            else:
                for v in index_vars(facts, hi):
                    if entails(facts, t.and_(t.le(lo, v), t.subst(
                            c, {bv: v})), 1500) and check_sat(
                                facts + rng + [t.lt(v, nb)], 1500) == "unsat":
                        val = v
                        break
            if val is not None:
                a, b = replace_term(a, y, val), replace_term(b, y, val)
                break
        else:
            break
    return a, b


def replace_term(x, old, new):
    memo = {}

    def go(y):
        if y is old:
            return new
        if y.op in ("c", "v") or y.depth < old.depth:
            return y
        r = memo.get(y)
        if r is None:
            if y.op in t.BINDERS:
                r = t.binder(y.op, y.args[0], *[go(a) for a in y.args[1:]])
            else:
                r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                                  for a in y.args])
            memo[y] = r
        return r
    return go(x)


_HQ = {}


def has_q(x):
    r = _HQ.get(x)
    if r is None:
        r = x.op in t.BINDERS or any(has_q(a) for a in x.args
                                     if isinstance(a, t.T))
        _HQ[x] = r
    return r


def _simp_poly(p, facts):
    """deep-simplify non-indicator atoms of p under facts"""
    out = {}
    memo = {}
    for m, c in p.items():
        q = {(): c}
        for a, e in m:
            if a.sort == "B":
                x = t.patom(a)
            else:
                if a not in memo:
                    memo[a] = t.nf(simp(a, facts)) if has_cond(a) else \
                        t.patom(a)
                x = memo[a]
            for _ in range(e):
                q = t.pmul(q, x)
        out = t.padd(out, q)
    return out


def _unfold_sums(p, facts):
    """split sum_{lo<=i<h+1} into sum_{lo<=i<h} + last when h+1 form and
    another atom with bound h exists"""
    sums = [a for m in p for a, e in m if a.op in ("sum", "prod")]
    if len(sums) < 2:
        return p
    his = {a.args[2] for a in sums}
    appm = {}
    for a in sums:
        hi = a.args[2]
        prev = t.nfterm(t.sub(hi, t.IONE))
        if prev in his and prev is not hi:
            bv, lo, _, body = a.args
            if entails(facts, t.le(lo, prev)):
                appm[a] = (t.padd if a.op == "sum" else t.pmul)(
                    t.nf(t.mk(a.op, (bv, lo, prev, body), a.sort)),
                    t.nf(t.subst(body, {bv: prev})))
    if not appm:
        return p
    return _replace_atoms(p, appm)


def _prenex(a, depth=0):
    """sum atom -> list of (coef, binders, monomial) with every rectangular
    nested sum pulled to the front; None when the nest is not rectangular"""
    bv, lo, hi, body = a.args
    nb = t.fresh("s", "I")
    out = []
    for m, c in t.nf(t.subst(body, {bv: nb})).items():
        terms = [(c, [(nb, lo, hi)], ())]
        for x, e in m:
            if x.op == "sum":
                if e > 2 or depth > 4:
                    return None
                new = []
                for _ in range(e):
                    sub = _prenex(x, depth + 1)
                    if sub is None:
                        return None
                    new = []
                    for c0, b0, m0 in terms:
                        for c1, b1, m1 in sub:
                            if any(nb in l.fv or nb in h.fv
                                   for _v, l, h in b1):
                                return None
                            new.append((c0 * c1, b0 + b1, t.mmul(m0, m1)))
                    terms = new
            else:
                terms = [(c0, b0, t.mmul(m0, ((x, e),)))
                         for c0, b0, m0 in terms]
        out.extend(terms)
    return out


def _canon_sums(p):
    """choose a canonical order of the nested sums (Fubini)"""
    mp = {}
    for m in p:
        for a, e in m:
            if a.op != "sum" or a in mp:
                continue
            try:
                pre = _prenex(a)
            except t.TooBig:
                pre = None
            if pre is None or all(len(b) < 2 for c, b, mm in pre) or \
                    max(len(b) for c, b, mm in pre) > 4 or len(pre) > 12:
                continue
            tot = {}
            for c, bs, mm in pre:
                best = None
                for perm in itertools.permutations(bs):
                    x = t.of_poly({mm: Fraction(1)}, a.sort)
                    for v, lo, hi in perm:
                        x = t.mk("sum", (v, lo, hi, x), a.sort)
                    q = t.nf(x)
                    k = sorted((sorted((y.id, e2) for y, e2 in m2), c2)
                               for m2, c2 in q.items())
                    if best is None or k < best[0]:
                        best = (k, q)
                tot = t.padd(tot, t.pmul(t.pconst(c), best[1]))
            mp[a] = tot
    if not mp:
        return p
    return _replace_atoms(p, mp)


def _replace_atoms(p, mp):
    out = {}
    for m, c in p.items():
        q = {(): c}
        for a, e in m:
            x = mp.get(a)
            if x is None:
                x = t.patom(a)
            for _ in range(e):
                q = t.pmul(q, x)
        out = t.padd(out, q)
    return out


def _eq_subst(p, atom):
    """use an equality atom (assumed true) to eliminate a variable"""
    d = t.nf(t.sub(atom.args[0], atom.args[1]))
    for m, c in sorted(d.items(), key=lambda kv: [-x[0].id for x in kv[0]]):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "v" and \
                abs(c) == 1:
            v = m[0][0]
            rest = {mm: -x / c for mm, x in d.items() if mm != m}
            if any(v in a.fv for mm in rest for a, e in mm):
                continue
            return v, t.of_poly(rest, v.sort)
    # oriented rewriting of an integer/real application atom
    return None


def _prove_zero(facts, p, depth, budget):
    budget[0] -= 1
    if not p:
        STATS["nf_proved"] += 1
        return Result("proved", "nf")
    if budget[0] < 0 or time.time() > budget[1]:
        return Result("unknown", "budget", t.show_poly(p))
    p = _rewrite_poly(dict(p))
    p = _deep_rewrite(p)
    p = _unfold_sums(p, facts)
    if not p:
        STATS["nf_proved"] += 1
        return Result("proved", "nf")
    # decide indicators from facts
    for a in batoms(p):
        if entails(facts, a, 1500):
            p = _psubst_ind(p, a, True)
        elif entails(facts, t.not_(a), 1500):
            p = _psubst_ind(p, a, False)
    if not p:
        STATS["z3_proved"] += 1
        return Result("proved", "nf+z3")
    ba = batoms(p)
    if ba:
        # split on the atom occurring most often
        cnt = {}
        for m in p:
            for a, e in m:
                if a.sort == "B":
                    cnt[a] = cnt.get(a, 0) + 1
        a = max(ba, key=lambda x: (cnt[x], x.op == "eq", -x.id))
        for val in (True, False):
            lit = a if val else t.not_(a)
            f2 = facts + [lit]
            if check_sat(relevant(f2, lit), 1500) == "unsat":
                continue
            q = _psubst_ind(p, a, val)
            if val and a.op == "eq":
                es = _eq_subst(q, a)
                if es is not None:
                    v, rep = es
                    f2 = [t.subst(f, {v: rep}) for f in f2]
                    f2 = [f for f in f2 if f is not t.TRUE]
                    srt = "R"
                    q = t.nf(t.subst(t.of_poly(q, srt), {v: rep}))
            r = _prove_zero(f2, q, depth + 1, budget)
            if not r:
                return r
        return Result("proved", "split")
    q = _simp_poly(p, facts)
    if q != p:
        return _prove_zero(facts, q, depth + 1, budget)
    side = []
    q = _clear_inv(p, facts, side)
    if not q:
        for s in side:
            if not _nonzero_fact(facts, s) and not entails(facts, s):
                return Result("unknown", "nf",
                              "denominator not provably nonzero: %s" % s,
                              facts=facts)
        STATS["nf_proved"] += 1
        return Result("proved", "nf/inv")
    # equalities in facts as rewriting, then z3
    for f in facts:
        if f.op == "eq" and f.args[0].sort != "B":
            es = _eq_subst(p, f)
            if es is not None and any(es[0] in a.fv for m in p
                                      for a, e in m):
                v, rep = es
                f2 = [t.subst(g, {v: rep}) for g in facts]
                f2 = [g for g in f2 if g is not t.TRUE]
                q2 = t.nf(t.subst(t.of_poly(p, "R"), {v: rep}))
                return _prove_zero(f2, q2, depth + 1, budget)
    q = _single_support(facts, p, depth, budget)
    if q is not None:
        return _prove_zero(facts, q, depth + 1, budget)
    q = _canon_sums(p)
    if q != p:
        r = _prove_zero(facts, q, depth + 1, budget)
        if r:
            return r
    r = _congruence(facts, p, depth, budget)
    if r is not None:
        return r
    goal = t.mk("eq", (t.of_poly(q, "R"), t.ZERO), "B")
    fr = relevant(facts, goal)
    st, model = check_sat(fr + [t.not_(goal)], TIMEOUT_MS, want_model=True)
    if st == "unsat":
        STATS["z3_proved"] += 1
        return Result("proved", "z3")
    if st == "sat":
        return Result("refuted", "z3",
                      "nonzero difference: " + t.show_poly(p), model, facts)
    # polynomials in independent atoms: a nonzero polynomial is refutable
    return Result("unknown", "z3", "difference: " + t.show_poly(p), None,
                  facts)


def _single_support(facts, p, depth, budget):
    """sum_b f(b) = f(v) when f vanishes for every b other than v (v an index
    variable of the same range); sums of equal range are taken together"""
    groups = {}
    for m in p:
        for a, e in m:
            if a.op == "sum" and e == 1:
                groups.setdefault((a.args[1], a.args[2]), []).append(a)
    for (lo, hi), atoms in sorted(groups.items(), key=lambda x: x[0][1].id):
        if not any(batoms(t.nf(a.args[3])) for a in atoms):
            continue
        cands = index_vars(facts, hi)
        if not cands:
            continue
        aset = set(atoms)
        nb = t.fresh("u", "I")
        rest, tot = {}, {}
        bad = False
        for m, c in p.items():
            hit = [a for a, e in m if a in aset]
            if not hit:
                rest[m] = c
                continue
            if len(hit) > 1:
                bad = True
                break
            a = hit[0]
            m2 = tuple((x, e) for x, e in m if x is not a)
            body = t.nf(t.subst(a.args[3], {a.args[0]: nb}))
            tot = t.padd(tot, t.pmul({m2: c}, body))
        if bad:
            continue
        for v in cands:
            if not entails(facts, t.and_(t.le(lo, v), t.lt(v, hi)), 1000):
                continue
            f2 = facts + [t.le(lo, nb), t.lt(nb, hi), t.ne(nb, v)]
            sub_budget = [60, min(budget[1], time.time() + 20)]
            r = _prove_zero(f2, tot, depth + 1, sub_budget)
            if r:
                one = t.nf(t.subst(t.of_poly(tot, "R"), {nb: v}))
                return t.padd(rest, one)
    return None


def _congruence(facts, p, depth, budget):
    """merge atoms f(x..), f(y..) whose arguments are provably equal, and sum
    atoms whose bodies are provably equal on the range"""
    atoms = sorted({a for m in p for a, e in m}, key=lambda a: a.id)
    groups = {}
    for a in atoms:
        if a.op == "f" and len(a.args) > 1:
            groups.setdefault((a.args[0], len(a.args)), []).append(a)
        elif a.op == "sum":
            groups.setdefault(("sum", a.sort), []).append(a)
        elif a.op in ("min", "max", "prod"):
            groups.setdefault((a.op, a.sort), []).append(a)
    if budget[0] < 50:
        return None
    for g in groups.values():
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                x, y = g[i], g[j]
                if x.op == "f":
                    c = t.and_(*[t.eq(u, v) if u.sort != "B" else
                                 t.iff(u, v) for u, v in
                                 zip(x.args[1:], y.args[1:])])
                    if c is t.FALSE:
                        continue
                    ok = entails(facts, c, 1000)
                else:
                    if not entails(facts, t.and_(
                            t.eq(x.args[1], y.args[1]),
                            t.eq(x.args[2], y.args[2])), 1000):
                        continue
                    nb = t.fresh("k", "I")
                    f2 = facts + [t.le(x.args[1], nb), t.lt(nb, x.args[2])]
                    sub_budget = [budget[0] // 4, budget[1]]
                    ok = bool(prove_eq(
                        f2, t.subst(x.args[3], {x.args[0]: nb}),
                        t.subst(y.args[3], {y.args[0]: nb}),
                        depth + 1, sub_budget))
                if ok:
                    q = _replace_atoms(p, {y: t.patom(x)})
                    return _prove_zero(facts, q, depth + 1, budget)
    return None


def prove(facts, goal):
    """goal: boolean term"""
    facts = list(facts)
    if goal is t.TRUE:
        return Result("proved", "trivial")
    if goal.op == "and":
        for g in goal.args:
            r = prove(facts, g)
            if not r:
                return r
        return Result("proved", "and")
    if goal.op == "eq" and goal.args[0].sort != "B":
        if goal.args[0].sort == "I" and entails(facts, goal, 500):
            STATS["z3_proved"] += 1
            return Result("proved", "z3")
        return prove_eq(facts, goal.args[0], goal.args[1])
    if goal.op == "forall":
        bv, lo, hi, body = goal.args
        nb = t.fresh("k", "I")
        return prove(facts + [t.le(lo, nb), t.lt(nb, hi)],
                     t.subst(body, {bv: nb}))
    fr = relevant(facts, goal)
    st, model = check_sat(fr + [t.not_(goal)], 2 * TIMEOUT_MS,
                          want_model=True)
    if st == "unsat":
        STATS["z3_proved"] += 1
        return Result("proved", "z3")
    try:
        sg = simp(goal, facts)
    except t.TooBig:
        sg = goal
    if sg is t.TRUE:
        return Result("proved", "simp")
    if st == "sat":
        return Result("refuted", "z3", "counter-model for %s" % goal, model,
                      facts)
    return Result("unknown", "z3", str(goal), None, facts)
