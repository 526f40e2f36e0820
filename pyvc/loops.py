"""The loop rule.  For ``for x in it`` with a symbolic trip count n the body is
executed once, on every path, from a havocked state.  Closed forms F(i) of the
state before iteration i are inferred from the body's transition and then
*checked*: F(0) = initial state (initiation) and transition(i, F(i)) = F(i+1)
(preservation) are discharged by the prover for an arbitrary i and an arbitrary
cell; F is thus an inductive invariant.  The state after the loop is F(n).
"""
import itertools
import numpy as np
from . import terms as t
from . import prove as pv
from . import sym
from .sym import SV, SArr, Unsupported, ctx, Poison, UNBOUND, lift, KDT, KORD
from . import arrays as A
from . import npsym


class Brk(object):
    pass


BRK = Brk()


class Ret(object):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------ state handling
class ListState(object):
    pass


def is_num(v):
    return isinstance(v, (SV, bool, int, float, complex, np.number, np.bool_))


def kind_of(v):
    return lift(v).dt.kind if is_num(v) else None


def same_val(a, b):
    if a is b:
        return True
    if is_num(a) and is_num(b):
        x, y = lift(a), lift(b)
        return x.re is y.re and x.im is y.im and x.dt.kind == y.dt.kind
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.st is b.st and a.maps == b.maps and a.vshape == b.vshape
    if type(a) is type(b) and isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))):
        return a == b
    return False


class Fam(object):
    """a family of state cells: scalar (arity 0) or array content component"""

    def __init__(self, key, comp, arity, sort, init, guard=None):
        self.key, self.comp, self.arity, self.sort = key, comp, arity, sort
        self.fname = t.fresh_name("H")
        self.init = init          # callable(idx)->term
        self.T = None             # transition term over params & loop var
        self.params = tuple(t.fresh("p", "I") for _ in range(arity))
        self.F = None             # callable(i, idx)->term
        self.by_def = False
        self.shape = guard        # dims (terms) for arrays

        # a dimension of extent one has only index 0
        self.ones = tuple(k for k, d in enumerate(guard or ())
                          if isinstance(d, t.T) and d.op == "c" and
                          d.args[0] == 1)

    def h(self, idx=()):
        if self.ones:
            idx = tuple(t.IZERO if k in self.ones else x
                        for k, x in enumerate(idx))
        return t.app(self.fname, idx, self.sort)

    def set_T(self, T):
        if self.ones:
            T = t.subst(T, {self.params[k]: t.IZERO for k in self.ones})
        self.T = T


def do_loop(it, body, get, set_, line=None):
    s = npsym.sym_iterable(it)
    if s is None:
        if isinstance(it, SArr) and it.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for x in it:
            r = body(x)
            if r is None:
                continue
            if r is BRK:
                return BRK
            return r
        return None
    return sym_loop(s, body, get, set_, line)


MAXMOD = 12


def sym_loop(s, body, get, set_, line):
    c = ctx()
    n = s.length()
    nm = t.nfterm(n)
    if nm.op == "c":
        for k in range(max(0, int(nm.args[0]))):
            r = body(s.elem(t.I(k)))
            if r is None:
                continue
            return r
        return None
    if not c.entails(t.le(t.IZERO, n)):
        n = t.ite(t.lt(t.IZERO, n), n, t.IZERO)
    i = t.fresh("i", "I")
    L0 = dict(get())
    S0 = [(st, st.get) for st in c.storages]
    nst = len(c.storages)
    lists0 = {k: list(v) for k, v in L0.items() if isinstance(v, list)}

    modL = {}      # name -> mode: ('num', kind) | 'poison' | 'arr' | 'list'
    modS = {}      # storage -> True
    base_obl = len(c.obls)

    rng = [t.le(t.IZERO, i), t.lt(i, n)]

    for rnd in range(MAXMOD):
        # ---- havoc
        fams = {}
        Lh = dict(L0)
        for name, mode in modL.items():
            if mode == "poison":
                Lh[name] = Poison("loop-carried non-numeric local %r" % name)
            elif mode[0] == "num":
                Lh[name], fs = havoc_num(("L", name), L0[name], mode[1])
                fams.update(fs)
            elif mode[0] == "seq":
                vals, fs = [], {}
                for j, (v, kd) in enumerate(zip(L0[name], mode[1])):
                    if kd is None:
                        vals.append(v)
                        continue
                    x, f1 = havoc_num(("L", name, j), v, kd)
                    vals.append(x)
                    fs.update(f1)
                fams.update(fs)
                if isinstance(L0[name], list):
                    L0[name][:] = vals
                    Lh[name] = L0[name]
                else:
                    Lh[name] = tuple(vals)
            elif mode[0] == "arr":
                a0 = L0[name]
                st = A.Storage(a0.vshape, mode[1], None, "loopvar")
                g0 = a0.getter()
                f = havoc_storage(("A", name), st, cast_get(
                    g0, a0.dtype, mode[1]))
                fams.update(f)
                Lh[name] = A.Arr(st)
        Sget = {}
        for st in modS:
            g0 = dict((id(a), b) for a, b in S0)[id(st)]
            f = havoc_storage(("S", id(st)), st, g0)
            fams.update(f)
            Sget[id(st)] = st.get

        def restore():
            set_(dict(Lh))
            for k, v in lists0.items():
                if isinstance(L0[k], list) and modL.get(k, ("",))[0] != "seq":
                    L0[k][:] = v
                elif isinstance(L0[k], list):
                    pass
            for st, g in S0:
                st.get = Sget.get(id(st), g)
            for k, mode in modL.items():
                if mode != "poison" and mode[0] == "arr":
                    a = Lh[k]
                    a.st.get = a_get[k]
                if mode != "poison" and mode[0] == "seq" and \
                        isinstance(L0[k], list):
                    L0[k][:] = seqh[k]
        a_get = {k: Lh[k].st.get for k, m in modL.items()
                 if m != "poison" and m[0] == "arr"}
        seqh = {k: list(Lh[k]) for k, m in modL.items()
                if m != "poison" and m[0] == "seq"}
        del c.obls[base_obl:]
        nf0 = len(c.facts)
        c.facts.extend(rng)
        outs = []

        def run():
            r = body(s.elem(i))
            return r, dict(get()), {id(st): st.get for st, _ in S0}, {
                k: list(v) for k, v in L0.items() if isinstance(v, list)}, {
                k: (Lh[k].st.get) for k in a_get}
        try:
            outs = c.explore(run, restore)
        finally:
            del c.facts[nf0:]
        # ---- what changed?
        grew = False
        for dec, kind, val, pf in outs:
            if kind != "ok":
                continue
            r, L1, S1, LL1, AG = val
            for name, v1 in L1.items():
                v0 = Lh.get(name, UNBOUND)
                mode = modL.get(name)
                if mode == "poison":
                    continue
                if isinstance(v1, list) and name in lists0:
                    v1 = LL1.get(name, v1)
                    v0 = seqh.get(name, lists0[name])
                if mode is None:
                    if same_val(v0, v1):
                        continue
                    modL[name] = new_mode(L0.get(name, UNBOUND) if name not in
                                          lists0 else lists0[name], v1)
                    grew = True
                elif mode[0] == "num":
                    k1 = kind_of(v1)
                    if k1 is None:
                        if v1 is UNBOUND:
                            continue
                        modL[name] = "poison"
                        grew = True
                    elif KORD[k1] > KORD[mode[1]]:
                        modL[name] = ("num", k1)
                        grew = True
                elif mode[0] == "seq":
                    m2 = new_mode(L0[name], v1, mode)
                    if m2 != mode:
                        modL[name] = m2
                        grew = True
                elif mode[0] == "arr":
                    if not isinstance(v1, SArr) or len(v1.vshape) != len(
                            L0[name].vshape) or not all(
                            A.same_dim(x, y) for x, y in
                            zip(v1.vshape, L0[name].vshape)):
                        modL[name] = "poison"
                        grew = True
                    elif np.result_type(v1.dtype, mode[1]) != mode[1]:
                        modL[name] = ("arr", np.result_type(v1.dtype,
                                                            mode[1]))
                        grew = True
            for st, g in S0:
                if S1[id(st)] is not (Sget.get(id(st), g)) and st not in modS:
                    modS[st] = True
                    grew = True
        if not grew:
            break
    else:
        raise Unsupported("loop state did not stabilise")

    # ---- exits
    exc_conds = []
    normal = []
    for dec, kind, val, pf in outs:
        pc = t.and_(*pf)
        if kind == "exc":
            exc_conds.append((pc, val))
        else:
            r = val[0]
            if r is not None:
                raise Unsupported("early exit from a symbolic loop")
            normal.append((dec, val, pf))
    havocs = {f.fname for f in fams.values()}
    # ---- merged transition
    for f in fams.values():
        def leaf(val, f=f):
            r, L1, S1, LL1, AG = val
            tag = f.key[0]
            if tag == "L":
                v = L1[f.key[1]]
                if isinstance(v, list):
                    v = LL1.get(f.key[1], v)
                if len(f.key) == 3:
                    v = v[f.key[2]]
                if not is_num(v):
                    raise Unsupported("loop local %r" % (f.key,))
                v = lift(v)
                return comp_of(v, f)
            if tag == "A":
                v = L1[f.key[1]]
                if v.st is Lh[f.key[1]].st:
                    re, im = AG[f.key[1]](f.params)
                    v = A.Arr(v.st)
                    vv = SV(re, im, v.dtype)
                else:
                    re, im = v.getter()(f.params)
                    vv = SV(re, im, v.dtype)
                return comp_of(vv, f)
            g = S1[f.key[1]]
            re, im = g(f.params)
            return re if f.comp == "re" else im
        f.set_T(merge([(dec, leaf(val)) for dec, val, pf in normal]))
        if f.T is None:
            f.T = f.h(f.params)
    # ---- closed forms
    solve_abstract(c, list(fams.values()), i, n, rng)
    c.invariants += len(fams)
    # ---- obligations recorded in the body: havoc symbols -> closed forms
    appm = {f.fname: (lambda *idx, f=f: f.F(i, idx)) for f in fams.values()}
    if appm:
        for o in c.obls[base_obl:]:
            if (o.goal.hv & havocs) or any(g.hv & havocs for g in o.facts):
                o.goal = t.subst(o.goal, {}, appm)
                o.facts = [t.subst(g, {}, appm) for g in o.facts]
    # ---- restore and install the final state
    Lf = dict(L0)
    byname = {}
    for f in fams.values():
        byname.setdefault(f.key, {})[f.comp] = f
    lastL = normal[-1][1][1] if normal else {}
    for name, mode in modL.items():
        if mode == "poison":
            Lf[name] = Poison("local %r is set by a symbolic loop" % name)
        elif mode[0] == "num":
            Lf[name] = final_num(byname[("L", name)], n, mode[1])
        elif mode[0] == "seq":
            vals = []
            for j, kd in enumerate(mode[1]):
                if kd is None:
                    vals.append((lists0.get(name) or L0[name])[j])
                else:
                    vals.append(final_num(byname[("L", name, j)], n, kd))
            if isinstance(L0[name], list):
                L0[name][:] = vals
                Lf[name] = L0[name]
            else:
                Lf[name] = tuple(vals)
        elif mode[0] == "arr":
            st = A.Storage(L0[name].vshape, mode[1], final_get(
                byname[("A", name)], n), "loopvar")
            Lf[name] = A.Arr(st)
    for k, v in lists0.items():
        if modL.get(k, ("",))[0] != "seq":
            L0[k][:] = v
    set_(Lf)
    for st, g in S0:
        st.get = g
    for st in modS:
        st.get = final_get(byname[("S", id(st))], n)
    # ---- exceptional exits
    for pc, e in exc_conds:
        pc = t.subst(pc, {}, appm) if appm else pc
        cond = t.exists(i, t.IZERO, n, pc)
        if c.decide(cond):
            raise e
    return None


def cast_get(g, dt0, dt1):
    if dt0 == dt1:
        return g

    def get(idx):
        re, im = g(idx)
        v = sym.cast(SV(re, im, dt0), dt1)
        return v.re, v.im
    return get


def comp_of(v, f):
    if f.comp == "re":
        x = v.re
    else:
        x = v.im if v.im is not None else t.ZERO
    if f.sort == "R":
        return t.to_real(x)
    if f.sort == "I" and x.sort == "B":
        return t.ite(x, t.IONE, t.IZERO)
    return x


def new_mode(v0, v1, old=None):
    if is_num(v0) and is_num(v1):
        a, b = kind_of(v0), kind_of(v1)
        a, b = a.replace("u", "i"), b.replace("u", "i")
        return ("num", a if KORD[a] >= KORD[b] else b)
    if isinstance(v0, (tuple, list)) and type(v0) is type(v1) and \
            len(v0) == len(v1):
        kinds = []
        for j, (x, y) in enumerate(zip(v0, v1)):
            if same_val(x, y) and (old is None or old[1][j] is None):
                kinds.append(None)
                continue
            m = new_mode(x, y)
            if m == "poison" or m[0] != "num":
                return "poison"
            k = m[1]
            if old is not None and old[1][j] is not None and \
                    KORD[old[1][j]] > KORD[k]:
                k = old[1][j]
            kinds.append(k)
        return ("seq", tuple(kinds))
    if isinstance(v0, SArr) and isinstance(v1, SArr) and \
            v0.ndim == v1.ndim and all(A.same_dim(x, y) for x, y in
                                       zip(v0.vshape, v1.vshape)):
        return ("arr", np.result_type(v0.dtype, v1.dtype))
    return "poison"


def havoc_num(key, v0, kind):
    v0 = lift(v0)
    sort = {"b": "B", "i": "I", "u": "I", "f": "R", "c": "R"}[kind]

    def conv(x):
        if sort == "R":
            return t.to_real(x)
        if sort == "I" and x.sort == "B":
            return t.ite(x, t.IONE, t.IZERO)
        return x
    fs = {}
    f = Fam(key, "re", 0, sort, lambda idx: conv(sym.num(v0)[0]
                                                if sort != "B" else v0.re))
    fs[(key, "re")] = f
    im = None
    if kind == "c":
        g = Fam(key, "im", 0, sort, lambda idx: v0.im if v0.im is not None
                else t.ZERO)
        fs[(key, "im")] = g
        im = g.h()
    dt = v0.dt if v0.dt.kind == kind else KDT[kind.replace("u", "i")]
    return SV(f.h(), im, dt), fs


def havoc_storage(key, st, g0):
    nd = len(st.shape)
    k = st.dt.kind
    sort = {"b": "B", "i": "I", "u": "I", "f": "R", "c": "R"}[k]
    f = Fam(key, "re", nd, sort, lambda idx: g0(idx)[0], st.shape)
    fs = {(key, "re"): f}
    if k == "c":
        g = Fam(key, "im", nd, sort, lambda idx: g0(idx)[1], st.shape)
        fs[(key, "im")] = g
        st.get = lambda idx: (f.h(idx), g.h(idx))
    else:
        st.get = lambda idx: (f.h(idx), None)
    return fs


def final_num(fs, n, kind):
    re = fs["re"].F(n, ())
    im = fs["im"].F(n, ()) if "im" in fs else None
    return SV(re, im, KDT[kind.replace("u", "i")])


def final_get(fs, n):
    memo = {}

    def get(idx):
        r = memo.get(idx)
        if r is None:
            r = memo[idx] = (fs["re"].F(n, idx), fs["im"].F(n, idx)
                             if "im" in fs else None)
        return r
    return get


def merge(items):
    """items: [(decisions, term)] from an exhaustive exploration"""
    if not items:
        return None

    def go(items, k):
        if len(items) == 1:
            return items[0][1]
        # first position >= k where decision is not forced
        while True:
            vals = {d[k][1] for d, _ in items}
            if len(vals) == 2:
                break
            k += 1
        cnd = items[0][0][k][0]
        yes = [x for x in items if x[0][k][1]]
        no = [x for x in items if not x[0][k][1]]
        return t.ite(cnd, go(yes, k + 1), go(no, k + 1))
    try:
        return go(items, 0)
    except IndexError:
        raise Unsupported("cannot merge loop paths")


# ------------------------------------------------------------ inference
def mentions(x, names):
    return bool(x.hv & names)


def h_apps(x, fname, acc=None, seen=None):
    """all applications of fname in x (binders included)"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if x in seen or fname not in x.hv:
        return acc
    seen.add(x)
    if x.op == "f" and x.args[0] == fname:
        if x not in acc:
            acc.append(x)
    for a in x.args:
        if isinstance(a, t.T):
            h_apps(a, fname, acc, seen)
    return acc


def known(c, true, false):
    """three-valued evaluation of a condition under assumed atoms"""
    if c is t.TRUE or c in true:
        return True
    if c is t.FALSE or c in false:
        return False
    if c.op == "not":
        k = known(c.args[0], true, false)
        return None if k is None else not k
    if c.op in ("and", "or"):
        unit = c.op == "and"
        vals = [known(a, true, false) for a in c.args]
        if any(v is (not unit) for v in vals):
            return not unit
        if all(v is unit for v in vals):
            return unit
        for d in (false if unit else true):
            if d.op == c.op and set(d.args) <= set(c.args):
                return not unit
    return None


def learn(c, val, true, false):
    """(true, false) extended with c == val"""
    true, false = set(true), set(false)

    def go(c, val):
        (true if val else false).add(c)
        if c.op == "not":
            go(c.args[0], not val)
        elif c.op == "and" and val or c.op == "or" and not val:
            for a in c.args:
                go(a, val)
        elif c.op in ("and", "or"):
            # unit propagation: one undetermined argument left
            want = c.op == "and"
            rest = [a for a in c.args
                    if known(a, true, false) is not want]
            if len(rest) == 1:
                go(rest[0], val)
    go(c, val)
    return true, false


def eq_subst(true, params):
    """param -> term from the known equalities"""
    m = {}
    for e in true:
        if e.op != "eq" or e.args[0].sort != "I":
            continue
        a, b = e.args
        if a in params and a not in m and a not in b.fv:
            m[a] = b
        elif b in params and b not in m and b not in a.fv:
            m[b] = a
    return m


def eq_classes(true):
    """representative of a term under the known integer equalities"""
    up = {}

    def find(x):
        x = t.nfterm(x)
        while x in up:
            x = up[x]
        return x
    for e in true:
        if e.op == "eq" and e.args[0].sort == "I":
            a, b = find(e.args[0]), find(e.args[1])
            if a is not b:
                up[a] = b
    return find


def localize(T, h, fname, params, true=frozenset(), false=frozenset(),
             depth=0):
    """T with infeasible branches pruned and every H(q) replaced by H(params)
    where the branch conditions force q = params"""
    if fname not in T.hv and T.op != "ite":
        return T
    if depth > 40:
        return T
    if T.op == "ite":
        c = T.args[0]
        k = known(c, true, false)
        if k is not None:
            return localize(T.args[1] if k else T.args[2], h, fname, params,
                            true, false, depth + 1)
        if c.op == "or" and fname not in c.hv:
            # ite(a or b, x, y) = ite(a, x, ite(b, x, y))
            a, b = c.args[0], t.or_(*c.args[1:])
            return localize(t.mk("ite", (a, T.args[1], t.mk("ite", (
                b, T.args[1], T.args[2]), T.sort)), T.sort), h, fname,
                params, true, false, depth + 1)
        t1, f1 = learn(c, True, true, false)
        t2, f2 = learn(c, False, true, false)
        x = localize(T.args[1], h, fname, params, t1, f1, depth + 1)
        y = localize(T.args[2], h, fname, params, t2, f2, depth + 1)
        return t.ite(c, x, y)
    m = eq_subst(true, set(params))
    if not m:
        return T
    for _ in range(3):
        m = {k: t.subst(v, m) if v.fv & set(m) and k not in
             t.subst(v, m).fv else v for k, v in m.items()}
    rep = {}
    cls = eq_classes(true)

    def same(x, p):
        return x is p or t.nfterm(t.sub(t.subst(x, m), t.subst(
            p, m))) is t.IZERO or cls(x) is cls(p)
    for a in h_apps(T, fname):
        if a is h:
            continue
        q = a.args[1:]
        if all(same(x, p) for x, p in zip(q, h.args[1:])):
            rep[q] = h
    if not rep:
        return T
    return t.subst(T, {}, {fname: lambda *q: rep.get(
        tuple(q), t.app(fname, q, h.sort))})


def delta(T, h, fname):
    """e with T = h + e, e free of h; None when not of that form"""
    if T is h:
        return t.const(0, T.sort)
    if not mentions(T, {fname}):
        return None
    if T.op == "ite":
        if mentions(T.args[0], {fname}):
            return None
        a, b = delta(T.args[1], h, fname), delta(T.args[2], h, fname)
        if a is None or b is None:
            return None
        return t.ite(T.args[0], a, b)
    if T.op == "+":
        rest, found = [], None
        for a in T.args:
            if mentions(a, {fname}):
                if found is not None:
                    return _delta_nf(T, h, fname)
                found = a
            else:
                rest.append(a)
        d = delta(found, h, fname)
        if d is None:
            return _delta_nf(T, h, fname)
        return t.add(d, *rest)
    return _delta_nf(T, h, fname)


def _delta_nf(T, h, fname):
    try:
        p = t.nf(t.sub(T, h))
    except t.TooBig:
        return None
    if any(fname in a.hv for m in p for a, e in m):
        return None
    return t.of_poly(p, T.sort)


def write_cond(T, h):
    """condition under which T may differ from h"""
    if T is h:
        return t.FALSE
    if T.op == "ite":
        a = write_cond(T.args[1], h)
        b = write_cond(T.args[2], h)
        # (an over-approximation in the second disjunct is harmless: there T
        # evaluates to h)
        return t.or_(t.and_(T.args[0], a), b)
    if T.sort == "B" and mentions(T, {h.args[0]}):
        b = bool_write(T, h)
        if b is not None:
            return b[0]
        # ite lowered to booleans: (c and a) or (not c and h)
        for k, d in enumerate(T.args):
            if T.op == "or" and d.op == "and" and any(
                    x is h for x in d.args):
                neg = t.not_(t.and_(*[x for x in d.args if x is not h]))
                if not mentions(neg, {h.args[0]}):
                    return neg
    return t.TRUE


def bool_write(T, h):
    """T of a boolean cell h as "if W then V else h" (W, V free of h)"""
    if any(a is not h for a in h_apps(T, h.args[0])):
        return None
    T1, T0 = replace(T, h, t.TRUE), replace(T, h, t.FALSE)
    if pv.entails([], T1):
        return T0, t.TRUE
    if pv.entails([], t.not_(T0)):
        return t.not_(T1), t.FALSE
    if pv.entails([T0], T1):
        return t.or_(T0, t.not_(T1)), T0
    return None


def conjuncts(c):
    return c.args if c.op == "and" else (c,)


def disjuncts(c):
    return c.args if c.op == "or" else (c,)


def witness(W, i):
    """the only iteration i that can satisfy W: solve an equality conjunct of
    every disjunct for i"""
    if W.op == "or":
        got = None
        for d in W.args:
            w = witness(d, i)
            if w is None or (got is not None and w is not got):
                return None
            got = w
        return got
    if W.op == "and":
        for a in sorted(W.args, key=lambda x: x.op != "eq"):
            w = witness(a, i)
            if w is not None:
                return w
        return None
    if W.op == "eq" and W.args[0].sort == "I":
        li = t.linear_in(t.nf(t.sub(W.args[0], W.args[1])), i)
        if li and abs(li[0]) == 1:
            return t.nfterm(t.of_poly({m: -v / li[0] for m, v in
                                       li[1].items()}, "I"))
    return None


def term_size(x, cap=40, memo=None):
    """tree size, up to cap"""
    n, todo = 0, [x]
    while todo and n < cap:
        y = todo.pop()
        n += 1
        todo.extend(a for a in y.args if isinstance(a, t.T))
    return n


def hoist(x, fname):
    """additions of conditionals that read the state become conditionals of
    additions; conditions that do not depend on the summation index leave the
    sum"""
    memo = {}

    def pull(y):
        """sum_b ite(c, e, 0), c free of b -> ite(c, sum_b e, 0)"""
        if y.op == "sum" and y.args[3].op == "ite":
            bv, lo, hi, body = y.args
            c, a, b = body.args
            if bv not in c.fv and b.op == "c" and b.args[0] == 0:
                return t.ite(c, t.sum_(bv, lo, hi, a), b)
        return y

    def pick(y, c, val):
        if y.op == "ite" and y.args[0] is c:
            return y.args[1 if val else 2]
        if y.op == "*":
            return t.mul(*[pick(a, c, val) for a in y.args])
        return y

    def cond(y):
        if y.op == "ite":
            return y.args[0]
        if y.op == "*":
            for a in y.args:
                c = cond(a)
                if c is not None:
                    return c
        return None

    def go(y, depth=0):
        if fname not in y.hv or y.sort == "B":
            return y
        r = memo.get(y)
        if r is not None:
            return r
        if y.op == "ite":
            r = t.ite(y.args[0], go(y.args[1], depth), go(y.args[2], depth))
        elif y.op in ("+", "*") and depth < 12:
            args = [go(a, depth) if fname in a.hv else (
                t.mul(*[pull(b) for b in a.args]) if a.op == "*" else
                pull(a)) for a in y.args]
            c = None
            for a in args:
                if fname in a.hv and c is None:
                    c = cond(a)
            mkop = t.add if y.op == "+" else t.mul
            if c is None or fname in c.hv:
                r = mkop(*args)
            else:
                r = t.ite(c, *[go(mkop(*[pick(a, c, v) for a in args]),
                                  depth + 1) for v in (True, False)])
        else:
            r = y
        memo[y] = r
        return r
    return go(x)


def prune(x, true=frozenset(), false=frozenset(), memo=None):
    """branches decided by the enclosing conditions are removed, also below
    sums"""
    memo = {} if memo is None else memo
    if x.op in ("c", "v") or not has_ite(x):
        return x
    key = (x, true, false)
    r = memo.get(key)
    if r is not None:
        return r
    if x.op == "ite":
        c = x.args[0]
        k = known(c, true, false)
        if k is not None:
            r = prune(x.args[1] if k else x.args[2], true, false, memo)
        else:
            t1, f1 = learn(c, True, true, false)
            t2, f2 = learn(c, False, true, false)
            r = t.ite(c, prune(x.args[1], frozenset(t1), frozenset(f1), memo),
                      prune(x.args[2], frozenset(t2), frozenset(f2), memo))
    elif x.op in t.BINDERS:
        bv = x.args[0]
        t1 = frozenset(c for c in true if bv not in c.fv)
        f1 = frozenset(c for c in false if bv not in c.fv)
        r = t.binder(x.op, bv, *[prune(a, t1, f1, memo) for a in x.args[1:]])
    elif x.op == "f" and len(x.args) == 1:
        r = x
    else:
        r = t.rebuild(x, [prune(a, true, false, memo)
                          if isinstance(a, t.T) else a for a in x.args])
    memo[key] = r
    return r


_HI = {}


def has_ite(x):
    r = _HI.get(x)
    if r is None:
        r = _HI[x] = x.op == "ite" or any(
            has_ite(a) for a in x.args if isinstance(a, t.T))
    return r


def abstract_T(f, names, defs, memo):
    """the transition of f with its large state-free subterms replaced by
    uninterpreted functions of their variables"""
    def leaf(y):
        if y.sort == "B":
            if y.hv & names or term_size(y, 200) < 200:
                return y
        elif y.sort != "R" or y.op in ("c", "v", "f") or \
                term_size(y, 12) < 12:
            return y
        r = memo.get(y)
        if r is None:
            vs = sorted(y.fv, key=lambda v: v.id)
            nm = t.fresh_name("E")
            defs[nm] = (vs, y)
            r = memo[y] = t.app(nm, tuple(vs), y.sort)
        return r

    def go(y):
        if y.sort == "B" or y.sort == "I":
            return y
        if y.op == "ite" and (y.hv & names or term_size(y, 400) < 400):
            return t.ite(leaf(y.args[0]), go(y.args[1]), go(y.args[2]))
        if not (y.hv & names):
            return leaf(y)
        if y.op == "+":
            mine = [a for a in y.args if a.hv & names]
            rest = [a for a in y.args if not (a.hv & names)]
            if rest:
                mine.append(go(t.add(*rest)))
            return t.add(*[go(a) if a.hv & names else a for a in mine])
        if y.op == "*":
            return t.mul(*[go(a) for a in y.args])
        return y
    return go(f.T)


def solve_abstract(c, fams, i, n, rng):
    """solve with large initial array contents and large state-free subterms
    left uninterpreted (the invariants then hold for every value of them);
    the real ones are substituted afterwards"""
    real = {}
    for f in fams:
        f.T = prune(hoist(f.T, f.fname))
        if f.arity and f.init(f.params).op not in ("c", "f"):
            nm = t.fresh_name("N")
            real[f] = (nm, f.init)
            f.init = lambda idx, nm=nm, f=f: t.app(nm, idx, f.sort)
    names = {f.fname for f in fams}
    defs, memo, Ts = {}, {}, {}
    for f in fams:
        Ts[f] = f.T
        f.T = abstract_T(f, names, defs, memo)

    def restore():
        for f in fams:
            f.T = Ts[f]
        for f, (nm, init) in real.items():
            f.init = init
    if not real and not defs:
        return solve(c, fams, i, n, rng)
    try:
        solve(c, fams, i, n, rng)
    except Unsupported:
        restore()
        for f in fams:
            f.F = None
            f.by_def = False
        return solve(c, fams, i, n, rng)
    appm = {nm: (lambda *idx, init=init: init(idx))
            for nm, init in real.values()}
    for nm, (vs, y) in defs.items():
        appm[nm] = lambda *a, vs=vs, y=y: t.subst(y, dict(zip(vs, a)))
    for f in fams:
        f.F = lambda iv, idx, F=f.F: t.subst(F(iv, idx), {}, appm)
    restore()


def solve(c, fams, i, n, rng):
    unresolved = list(fams)
    facts = c.facts + rng
    while unresolved:
        progress = False
        names = {f.fname for f in unresolved}
        for f in list(unresolved):
            if try_family(c, f, unresolved, fams, i, n, rng):
                unresolved.remove(f)
                progress = True
        if not progress:
            # joint MAP rule (cells written once, possibly reading each
            # other's not-yet-written cells)
            done = joint_map(c, unresolved, fams, i, n, rng)
            if not done:
                raise Unsupported(
                    "no inductive closed form for loop state %s" % (
                        [(f.key[0], f.comp, t.show(f.T)[:300])
                         for f in unresolved[:2]],))
            unresolved = [f for f in unresolved if f not in done]
    # ---- check the invariants
    appi = {f.fname: (lambda *idx, f=f: f.F(i, idx)) for f in fams}
    for f in fams:
        if f.by_def:
            continue
        inb, choices = [], []
        for p, d in zip(f.params, f.shape or ()):
            if d.op == "c" and 1 <= d.args[0] <= 4:
                choices.append([t.I(k) for k in range(int(d.args[0]))])
            else:
                inb += [t.le(t.IZERO, p), t.lt(p, d)]
                choices.append([p])
        if not f.shape:
            choices = [[p] for p in f.params]
        base = list(c.facts) + inb
        T = t.subst(f.T, {}, appi)
        for idx in itertools.product(*choices):
            idx = tuple(idx)
            r = pv.prove_eq(base, f.F(t.IZERO, idx), f.init(idx))
            if not r:
                raise Unsupported("inferred invariant fails initially: %s" %
                                  r.detail)
            lhs = t.subst(T, dict(zip(f.params, idx)))
            rhs = unfold_last(f.F(t.add(i, t.IONE), idx), i)
            r = pv.prove_eq(base + rng, lhs, rhs)
            if not r:
                raise Unsupported("inferred invariant is not preserved: %s" %
                                  r.detail)


def resolved_sub(T, fams, i):
    appm = {f.fname: (lambda *idx, f=f: f.F(i, idx)) for f in fams
            if f.F is not None}
    return t.subst(T, {}, appm) if appm else T


def try_family(c, f, unresolved, fams, i, n, rng):
    others = {g.fname for g in unresolved if g is not f}
    T = resolved_sub(f.T, fams, i)
    h = f.h(f.params)
    init = f.init
    params = f.params
    free = not mentions(T, {f.fname})
    if f.arity:
        T = localize(T, h, f.fname, params)

    def inst(x, idx, iv):
        m = dict(zip(params, idx))
        m[i] = iv
        return t.subst(x, m)
    if T is h:
        f.F = lambda iv, idx: init(idx)
        return True
    if mentions(T, others):
        return False
    # boolean cells
    if f.sort == "B":
        if T.op == "and" and any(x is h for x in T.args):
            e = t.and_(*[x for x in T.args if x is not h])
            if not mentions(e, {f.fname}):
                def F(iv, idx):
                    b = t.fresh("j", "I")
                    return t.and_(init(idx), t.forall(
                        b, t.IZERO, iv, inst(e, idx, b)))
                f.F = F
                return True
        if T.op == "or" and any(x is h for x in T.args):
            e = t.or_(*[x for x in T.args if x is not h])
            if not mentions(e, {f.fname}):
                def F(iv, idx):
                    b = t.fresh("j", "I")
                    return t.or_(init(idx), t.exists(
                        b, t.IZERO, iv, inst(e, idx, b)))
                f.F = F
                return True
    # no dependence on itself: value of the previous iteration
    if not mentions(T, {f.fname}):
        def F(iv, idx):
            return t.ite(t.lt(t.IZERO, iv),
                         inst(T, idx, t.sub(iv, t.IONE)), init(idx))
        f.F = F
        # F(0) is init and F(i + 1) is T(i), by definition
        f.by_def = free
        return True
    if not f.arity and f.sort == "I" and cyclic(c, f, T, h, i, init):
        return True
    # ADD rule
    if f.sort != "B":
        e = delta(T, h, f.fname)
        if e is not None:
            k = not f.arity and carry(c, e, i)
            if k:
                f.F = lambda iv, idx: t.add(init(idx), t.idiv(iv, k))
                return True

            def F(iv, idx):
                b = t.fresh("j", "I")
                return t.add(init(idx), t.sum_(b, t.IZERO, iv,
                                               inst(e, idx, b)))
            f.F = F
            return True
        # min / max
        for op, x in minmax_form(T, h, f.fname):
            def F(iv, idx, op=op, x=x):
                b = t.fresh("j", "I")
                m = t.binder(op, b, t.IZERO, iv, inst(x, idx, b))
                i0 = init(idx)
                both = t.ite(t.lt(m, i0), m, i0) if op == "min" else \
                    t.ite(t.lt(i0, m), m, i0)
                return t.ite(t.lt(t.IZERO, iv), both, i0)
            f.F = F
            return True
        # PROD
        if T.op == "*" and sum(1 for a in T.args if a is h) == 1:
            e = t.mul(*[a for a in T.args if a is not h])
            if not mentions(e, {f.fname}):
                def F(iv, idx):
                    b = t.fresh("j", "I")
                    return t.mul(init(idx), t.binder(
                        "prod", b, t.IZERO, iv, inst(e, idx, b)))
                f.F = F
                return True
    if f.arity and joint_map(c, [f], fams, i, n, rng):
        return True
    if last_write(f, T, h, inst):
        return True
    # ADD rule, decided by the prover: T(h) = h + T(0)
    if f.sort != "B" and all(a is h for a in h_apps(T, f.fname)):
        e = replace(T, h, t.I(0) if f.sort == "I" else t.R(0))
        inb = []
        for p, d in zip(f.params, f.shape or ()):
            inb += [t.le(t.IZERO, p), t.lt(p, d)]
        if not mentions(e, {f.fname}) and pv.prove_eq(
                c.facts + rng + inb, T, t.add(h, e)):
            def F(iv, idx):
                b = t.fresh("j", "I")
                return t.add(init(idx), t.sum_(b, t.IZERO, iv,
                                               inst(e, idx, b)))
            f.F = F
            return True
    return False


def cyclic(c, f, T, h, i, init):
    """CYCLE rule: h counts 0, 1, ..., k-1, 0, ...; after i iterations it is
    i mod k"""
    one = t.add(h, t.IONE)
    for cond in pv._free_conds(T, []):
        if cond.op != "eq" or not mentions(cond, {f.fname}):
            continue
        k = t.nfterm(t.add(*[t.sub(*cond.args), one])) \
            if not mentions(t.nfterm(t.add(t.sub(*cond.args), one)),
                            {f.fname}) else t.nfterm(
                                t.add(t.sub(*cond.args[::-1]), one))
        if mentions(k, {f.fname}) or i in k.fv:
            continue
        want = t.ite(t.eq(one, k), t.IZERO, one)
        if init(()) is t.IZERO and pv.entails(c.facts, t.le(t.IONE, k)) and \
                pv.prove_eq(c.facts, T, want):
            f.F = lambda iv, idx: t.mod(iv, k)
            return True
    return False


def carry(c, e, i):
    """LEMMA: sum_{j<i} [j mod k + 1 == k] = i div k for k >= 1"""
    if e.op != "ite" or e.args[0].op != "eq":
        return None
    for m in t.subterms(e):
        if m.op == "mod" and m.args[0] is i and i not in m.args[1].fv:
            k = m.args[1]
            if pv.entails(c.facts, t.le(t.IONE, k)) and pv.prove_eq(
                    c.facts, e, t.ite(t.eq(t.add(m, t.IONE), k),
                                      t.IONE, t.IZERO)):
                return k
    return None


def last_write(f, T, h, inst):
    """LAST rule: the cell holds the value of the last iteration that wrote
    it; neither the value nor the condition reads the cell"""
    def wc(x):
        if x is h:
            return t.FALSE
        if x.op == "ite" and mentions(x, {f.fname}):
            return t.or_(t.and_(x.args[0], wc(x.args[1])),
                         t.and_(t.not_(x.args[0]), wc(x.args[2])))
        return t.TRUE
    W = wc(T)

    def leaves(x):
        if x is h:
            return x
        if x.op == "ite" and not mentions(x.args[0], {f.fname}):
            a, b = leaves(x.args[1]), leaves(x.args[2])
            if a is None or b is None:
                return None
            if a is h:
                return b
            if b is h:
                return a
            return t.ite(x.args[0], a, b)
        return None if mentions(x, {f.fname}) else x
    V = leaves(T)
    if f.sort == "B" and (V is None or mentions(W, {f.fname})):
        b = bool_write(T, h)
        if b is not None:
            W, V = b
    if V is None or V is h or W is t.TRUE or mentions(W, {f.fname}):
        return False
    init = f.init

    def F(iv, idx):
        b = t.fresh("j", "I")
        L = t.binder("last", b, t.IZERO, iv, inst(W, idx, b))
        return t.ite(t.le(t.IZERO, L), inst(V, idx, L), init(idx))
    f.F = F
    return True


def unfold_last(x, i):
    """last{k in 0..i+1 | c} = i if c(i) else last{k in 0..i | c}"""
    hi = t.nfterm(t.add(i, t.IONE))
    for _ in range(6):
        found = []
        seen = set()

        def find(y, bound):
            if (y, bound) in seen or y.op in ("c", "v"):
                return
            seen.add((y, bound))
            if y.op == "last" and t.nfterm(y.args[2]) is hi and \
                    not (y.fv & bound):
                found.append(y)
            b2 = bound | {y.args[0]} if y.op in t.BINDERS else bound
            for a in y.args:
                if isinstance(a, t.T):
                    find(a, b2)
        find(x, frozenset())
        if not found:
            return x
        y = min(found, key=lambda z: z.depth)
        bv, lo, _, body = y.args
        x = t.ite(t.subst(body, {bv: i}), replace(x, y, i),
                  replace(x, y, t.binder("last", bv, lo, i, body)))
    return x


def replace(x, old, new):
    memo = {}

    def go(y):
        if y is old:
            return new
        if y.op in ("c", "v") or y.depth < old.depth:
            return y
        if y in memo:
            return memo[y]
        if y.op in t.BINDERS:
            r = t.binder(y.op, y.args[0], *[go(a) for a in y.args[1:]])
        elif y.op == "f" and len(y.args) == 1:
            r = y
        else:
            r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                              for a in y.args])
        memo[y] = r
        return r
    return go(x)


def minmax_form(T, h, fname):
    if T.op == "ite" and T.args[0].op == "lt":
        a, b = T.args[0].args
        x, y = T.args[1], T.args[2]
        for (p, q, r, s2) in ((a, b, x, y),):
            # if e < h then e else h  -> min ; if h < e then e else h -> max
            if q is h and r is p and s2 is h and not mentions(p, {fname}):
                yield "min", p
            if p is h and r is q and s2 is h and not mentions(q, {fname}):
                yield "max", q
            if q is h and r is h and s2 is p and not mentions(p, {fname}):
                yield "max", p
            if p is h and r is h and s2 is q and not mentions(q, {fname}):
                yield "min", q


def joint_map(c, group, fams, i, n, rng):
    """MAP rule: iteration i writes only cells p with w(p) = i, each family's
    new value may read havocked cells that no earlier iteration wrote."""
    group = [f for f in group if f.arity > 0]
    if not group:
        return []
    Ts = {f: resolved_sub(f.T, fams, i) for f in group}
    names = {f.fname for f in group}
    unresolved_names = {f.fname for f in fams if f.F is None}
    info = {}
    for f in list(group):
        T = Ts[f]
        if mentions(T, unresolved_names - names):
            return []
        h = f.h(f.params)
        W = write_cond(T, h)
        w = witness(W, i)
        if w is None:
            return []
        info[f] = (T, W, w)
    byn = {f.fname: f for f in group}
    # reads: every H_g(q) in T_f under W_f must be unwritten before iteration
    # i, i.e. no i' < i has W_g(i', q)
    repl = {}
    for f in group:
        T, W, w = info[f]
        # values when written
        for g in group:
            for a in h_apps(T, g.fname):
                if a is f.h(f.params) and g is f:
                    continue
                q = a.args[1:]
                wg = t.subst(info[g][2], dict(zip(g.params, q)))
                Wg = info[g][1]
                # if q's writer index is >= i (or never) it is unwritten yet
                bvs = {v for v in a.fv if v.args[0].startswith("$b") or
                       v not in T.fv}
                facts = c.facts + rng + [W]
                # strip facts over bound vars: treat bound variables as free
                goal = t.not_(t.and_(t.lt(wg, i), t.le(t.IZERO, wg),
                                     t.subst(Wg, dict(
                                         list(zip(g.params, q)) +
                                         [(i, wg)]))))
                if not pv.entails(facts, goal):
                    return []
    for f in group:
        T, W, w = info[f]
        params = f.params

        def F(iv, idx, f=f, T=T, W=W, w=w, params=params):
            m = dict(zip(params, idx))
            wi = t.subst(w, m)
            m2 = dict(m)
            m2[i] = wi
            appm = {g.fname: (lambda *q, g=g: g.init(q)) for g in group}
            Wi = t.subst(W, m2)
            cond = t.and_(t.le(t.IZERO, wi), t.lt(wi, iv), Wi)
            if w in params and f.shape is not None:
                # indices of a storage are within its shape
                cond = Wi
                if t.nfterm(t.sub(f.shape[params.index(w)], iv)) is not \
                        t.IZERO:
                    cond = t.and_(t.lt(wi, iv), Wi)
            if cond is t.FALSE:
                return f.init(idx)
            val = t.subst(t.subst(T, m2), {}, appm)
            return t.ite(cond, val, f.init(idx))
        f.F = F
    return group


def do_while(test, body, get, set_, line=None):
    """while loop: concrete tests run natively; a symbolic test is handled by
    guessing a trip count from an induction variable and checking it."""
    c = ctx()
    steps = 0
    while True:
        if getattr(c, "while_rule", None) is not None:
            outs = c.explore(test)
            if len(outs) != 1 or outs[0][1] != "ok" or (
                    isinstance(outs[0][2], SV) and
                    not outs[0][2].is_const()):
                return sym_while(test, body, get, set_, line)
        v = test()
        if isinstance(v, SV) and not v.is_const():
            tt = sym.truth(v)
            if tt.op != "c" and not c.entails(tt) and \
                    not c.entails(t.not_(tt)):
                return sym_while(test, body, get, set_, line)
            if not c.entails(tt):
                return None
        elif not v:
            return None
        steps += 1
        if steps > 100000:
            raise Unsupported("while loop does not terminate concretely")
        r = body()
        if r is None:
            continue
        return r


class LoopState(object):
    """state of a while loop as seen by its invariant: numeric locals that
    the loop changes, arrays whose contents it changes, iterations so far"""

    def __init__(self, locals_, arrays, count):
        self.locals, self.arrays, self.count = locals_, arrays, count

    def ints(self):
        return [SV(sym.num(lift(x))[0], None, KDT["i"]) for k, x in
                sorted(self.locals.items()) if lift(x).dt.kind in "iu"]

    def reals(self):
        return [x for k, x in sorted(self.locals.items())
                if lift(x).dt.kind == "f"]


def _frozen(shape, dt, get):
    return A.Arr(A.Storage(shape, dt, get, "loopstate"))


def sym_while(test, body, get, set_, line):
    """Hoare rule.  The contract supplies alternatives (definitions of array
    contents, candidate invariants); the largest inductive subset of the
    candidates is computed (Houdini) and checked: holds initially, preserved
    by every path of the body.  Afterwards only the invariant and the negated
    test are known."""
    c = ctx()
    rule = getattr(c, "while_rule", None)
    if rule is None:
        raise Unsupported("while loop with a symbolic condition")
    L0 = dict(get())
    if any(isinstance(v, list) for v in L0.values()):
        raise Unsupported("list in a symbolic while loop")
    S0 = [(st, st.get) for st in c.storages]
    g0 = {id(st): g for st, g in S0}
    cnt = t.fresh("count", "I")
    modL, modS = {}, {}
    base_obl = len(c.obls)

    def havoc():
        fams, Lh = {}, dict(L0)
        for name, mode in modL.items():
            if mode == "poison":
                Lh[name] = Poison("loop-carried non-numeric local %r" % name)
            elif mode[0] == "num":
                Lh[name], fs = havoc_num(("L", name), L0[name], mode[1])
                fams.update(fs)
            elif mode[0] == "arr":
                st = A.Storage(L0[name].vshape, mode[1], None, "loopvar")
                havoc_storage(("A", name), st, None)
                Lh[name] = A.Arr(st)
            else:
                raise Unsupported("sequence in a symbolic while loop")
        Sh = {}
        for st in modS:
            havoc_storage(("S", id(st)), st, None)
            Sh[id(st)] = st.get
            st.get = g0[id(st)]
        return Lh, Sh, {k: Lh[k].st.get for k, m in modL.items()
                        if m != "poison" and m[0] == "arr"}

    def install(Lh, Sh, Ah):
        set_(dict(Lh))
        for st, g in S0:
            st.get = Sh.get(id(st), g)
        for k, g in Ah.items():
            Lh[k].st.get = g

    def state(L, Sg, count, initial=False):
        num = {k: lift(L[k]) for k, m in modL.items()
               if m != "poison" and m[0] == "num" and is_num(L[k])}
        arrs = [_frozen(st.shape, st.dt, Sg.get(id(st), g0[id(st)]))
                for st in modS]
        for k, m in sorted(modL.items()):
            if m != "poison" and m[0] == "arr":
                a = L[k]
                arrs.append(_frozen(a.vshape, a.dtype, a.getter()))
        return LoopState(num, arrs, SV(count, None, KDT["i"]))

    def once(Lh, Sh, Ah, facts, post):
        install(Lh, Sh, Ah)
        del c.obls[base_obl:]
        n0 = len(c.facts)
        c.facts.extend(facts)

        def run():
            if not bool(test()):
                raise sym.Infeasible()
            r = body()
            L1 = dict(get())
            S1 = {id(st): st.get for st, _ in S0}
            return r, L1, S1, post(L1, S1)
        try:
            return c.explore(run, lambda: install(Lh, Sh, Ah))
        finally:
            del c.facts[n0:]

    # ---- what does the loop change?
    for rnd in range(MAXMOD):
        Lh, Sh, Ah = havoc()
        outs = once(Lh, Sh, Ah, [], lambda L1, S1: None)
        grew = False
        for dec, kind, val, pf in outs:
            if kind != "ok":
                continue
            r, L1, S1, _ = val
            for name, v1 in L1.items():
                mode, v0 = modL.get(name), Lh.get(name, UNBOUND)
                if mode == "poison" or v1 is UNBOUND:
                    continue
                if mode is None:
                    if not same_val(v0, v1):
                        modL[name] = new_mode(L0.get(name, UNBOUND), v1)
                        grew = True
                elif mode[0] == "num":
                    k1 = kind_of(v1)
                    if k1 is None or KORD[k1] > KORD[mode[1]]:
                        modL[name] = "poison" if k1 is None else ("num", k1)
                        grew = True
                elif mode[0] == "arr" and not (
                        isinstance(v1, SArr) and new_mode(
                            L0[name], v1) == mode):
                    modL[name] = "poison"
                    grew = True
            for st, g in S0:
                if S1[id(st)] is not Sh.get(id(st), g) and st not in modS:
                    modS[st] = True
                    grew = True
        if not grew:
            break
    else:
        raise Unsupported("while state did not stabilise")
    install(L0, {}, {})
    init = state(L0, {}, t.IZERO)
    why = "no alternative"
    for alt in rule(init):
        install(L0, {}, {})
        got = _houdini(c, alt, init, havoc, once, state, cnt, modS, modL)
        if isinstance(got, str):
            why = got
            continue
        Lh, Sh, Ah, P, st = got
        install(Lh, Sh, Ah)
        for nm, f in P:
            c.assume(f)
        c.assume(t.le(t.IZERO, cnt))
        c.invariants += len(P) + len(alt.get("define", ()))
        if bool(test()):
            raise sym.Infeasible()
        c.loop_exits = getattr(c, "loop_exits", []) + [st]
        return None
    raise Unsupported("while loop: " + why)


def _houdini(c, alt, init, havoc, once, state, cnt, modS, modL):
    defs, preds = alt.get("define", []), alt.get("preds", [])
    Lh, Sh, Ah = havoc()
    st = state(Lh, Sh, cnt)
    # contents given by definition
    order = list(modS)
    for k, fn in defs:
        a = init.arrays[k]
        idx = tuple(t.fresh("k", "I") for _ in a.vshape)
        inb = [x for y, d in zip(idx, a.vshape)
               for x in (t.le(t.IZERO, y), t.lt(y, d))]
        want = lift(fn(init, *[SV(x, None, KDT["i"]) for x in idx]))
        if not pv.prove_eq(c.facts + inb, a.at(*idx).re, want.re):
            return "definition does not hold initially"

        def g(idx, fn=fn, st=st):
            x = sym.cast(lift(fn(st, *[SV(x, None, KDT["i"])
                                       for x in idx])), KDT["f"])
            return x.re, None
        if k < len(order):
            Sh[id(order[k])] = g
        else:
            names = sorted(n for n, m in modL.items() if m != "poison" and
                           m[0] == "arr")
            nm = names[k - len(order)]
            Ah[nm] = g
            Lh[nm].st.get = g
    st = state(Lh, Sh, cnt)
    live = []
    for nm, f in preds:
        try:
            f0 = sym.truth(lift(f(init)))
        except IndexError:
            continue
        if pv.prove(c.facts, f0):
            live.append((nm, f))

    def post(L1, S1):
        s1 = state(L1, S1, t.add(cnt, t.IONE))
        out = [(nm, f, sym.truth(lift(f(s1)))) for nm, f in live]
        eqs = []
        for k, fn in defs:
            a = s1.arrays[k]
            idx = tuple(t.fresh("k", "I") for _ in a.vshape)
            inb = [x for y, d in zip(idx, a.vshape)
                   for x in (t.le(t.IZERO, y), t.lt(y, d))]
            want = lift(fn(s1, *[SV(x, None, KDT["i"]) for x in idx]))
            eqs.append((inb, a.at(*idx).re, want.re))
        return out, eqs
    for rnd in range(30):
        P = [(nm, sym.truth(lift(f(st)))) for nm, f in live]
        facts = [f for nm, f in P] + [t.le(t.IZERO, cnt)]
        outs = once(Lh, Sh, Ah, facts, post)
        bad = set()
        for dec, kind, val, pf in outs:
            fs = c.facts + facts + pf
            if kind == "exc":
                if not pv.prove(fs, t.FALSE):
                    return "the body may raise %r" % (val,)
                continue
            r, L1, S1, (out, eqs) = val
            if r is not None:
                return "early exit from a symbolic while loop"
            for nm, f, term in out:
                if f not in bad and not pv.prove(fs, term):
                    bad.add(f)
        if bad:
            live = [(nm, f) for nm, f in live if f not in bad]
            continue
        for dec, kind, val, pf in outs:
            if kind == "ok":
                for inb, a, b in val[3][1]:
                    r = pv.prove_eq(c.facts + facts + pf + inb, a, b)
                    if not r:
                        return "definition is not preserved: " + r.detail
        return Lh, Sh, Ah, P, st
    return "invariant search did not stabilise"
