"""Cuts: a contract names an intermediate value of its specification
(`v.let`); subterms of a goal that are proved equal to it are replaced by the
name.  A numeric evaluation only selects the candidates worth a proof."""
import hashlib
import math

from . import terms as t
from . import prove as pv


class NoValue(Exception):
    pass


def _rnd(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


def value(x, seed, memo):
    r = memo.get(x)
    if r is None:
        r = memo[x] = _value(x, seed, memo)
    return r


def _value(x, seed, memo):
    op = x.op
    if op == "c":
        return bool(x.args[0]) if x.sort == "B" else float(x.args[0])
    if op == "v":
        u = _rnd(seed, x.args[0])
        if x.sort == "B":
            return u < 0.5
        return float(int(2 + 7 * u)) if x.sort == "I" else 3 * u - 0.7
    if op in t.BINDERS:
        raise NoValue()
    a = [value(y, seed, memo) for y in x.args if isinstance(y, t.T)]
    if op == "f":
        n = x.args[0]
        if len(a) == 1:
            if n == "sqrt":
                return math.sqrt(abs(a[0]))
            if n in ("sin", "cos"):
                return getattr(math, n)(a[0])
            if n == "exp":
                return math.exp(min(a[0], 50.0))
        u = _rnd(seed, n, tuple(float("%.8g" % y) + 0.0 for y in a))
        if x.sort == "B":
            return u < 0.5
        return float(int(2 + 7 * u)) if x.sort == "I" else 3 * u - 0.7
    if op == "+":
        return sum(a)
    if op == "*":
        return math.prod(a)
    if op == "inv":
        return 1.0 / a[0] if a[0] else 0.0
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "not":
        return not a[0]
    if op == "and":
        return all(a)
    if op == "or":
        return any(a)
    if op == "eq":
        return a[0] == a[1]
    if op == "lt":
        return a[0] < a[1]
    if op == "toreal":
        return a[0]
    if op == "floor":
        return float(math.floor(a[0]))
    if op == "rint":
        return float(round(a[0]))
    if op == "trunc":
        return float(math.trunc(a[0]))
    if op == "idiv" and a[1]:
        return float(a[0] // a[1])
    if op == "mod" and a[1]:
        return float(a[0] % a[1])
    raise NoValue()


SEEDS = tuple(range(1, 17))
_PROVED = {}


def close(a, b):
    return abs(a - b) <= 1e-7 * (1.0 + abs(a) + abs(b))


def cut(lets, facts, goal):
    """goal with every subterm proved equal to a named value replaced"""
    memos = {s: {} for s in SEEDS}
    for x, d in lets:
        # evaluate names like their definitions
        for s in SEEDS:
            try:
                memos[s][x] = value(d, s, memos[s])
            except (NoValue, OverflowError):
                pass
    proved = _PROVED.setdefault(tuple(f.id for f in facts), {})
    for x, d in lets:
        goal = _replace(x, d, facts, goal, memos, proved)
    return goal


def _replace(x, d, facts, goal, memos, proved):
    memo = {}
    need = set(v for v in d.fv)

    def same(y):
        if y is d:
            return True
        if y.sort != d.sort or y.op in ("c", "v") or not (need <= set(y.fv)
                                                          or y.fv):
            return False
        try:
            for s in SEEDS:
                if not close(value(y, s, memos[s]), value(d, s, memos[s])):
                    return False
        except (NoValue, OverflowError):
            return False
        k = (y, d)
        if k not in proved:
            proved[k] = bool(pv.prove_eq(facts, y, d))
        return proved[k]

    def go(y):
        if y.op in ("c", "v"):
            return y
        r = memo.get(y)
        if r is None:
            if y.op in t.BINDERS:
                r = y
            elif same(y):
                r = x
            else:
                r = t.rebuild(y, [go(a) if isinstance(a, t.T) else a
                                  for a in y.args])
            memo[y] = r
        return r
    return go(goal)
