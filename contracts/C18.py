"""Kronecker products."""
import numpy
from pyvc.registry import Prop

P = Prop("C18", ["the number of Kronecker factors (1..3, bounded: 4) is "
                 "enumerated, their sizes and values are arbitrary",
                 "numpy.linalg.cholesky is an external function: only equal "
                 "arguments giving equal results is assumed of it; the "
                 "jitter retry is checked on concrete matrices only"])
MOD = "africanus.linalg.kronecker_tools:"


def listof(mats):
    a = numpy.empty(len(mats), object)
    for i, m in enumerate(mats):
        a[i] = m
    return a


def prod(xs):
    r = 1
    for x in xs:
        r = x * r
    return r


def posdef(r, shape):
    m = r.normal(size=shape)
    return m.dot(m.T) + numpy.eye(shape[0])


def factors(v, d, square, gen=None, dtype=float):
    rows = [v.dim("m%d" % k, 1) for k in range(d)]
    cols = rows if square else [v.dim("g%d" % k, 1) for k in range(d)]
    mats = [v.array("K%d" % k, (rows[k], cols[k]), dtype, gen=gen)
            for k in range(d)]
    return rows, cols, mats


def flat(dims, idx):
    r = 0
    for n, i in zip(dims, idx):
        r = r * n + i
    return r


def dense(v, mats, cols, idx, rhs):
    """sum_j prod_k K_k[i_k, j_k] rhs(flat(j))"""
    def go(k, js):
        if k == len(mats):
            return rhs(flat(cols, js))
        return v.sum(cols[k], lambda j: v.rd(mats[k], idx[k], j) *
                     go(k + 1, js + [j]))
    return go(0, [])


@P.contract(params=[dict(d=d) for d in (1, 2, 3, 4)])
def kron_N(v, d):
    """the number of rows is the product of the factors' rows"""
    rows, cols, mats = factors(v, d, False)
    v.eq("N", v.fn(MOD + "kron_N")(listof(mats)), prod(rows))


# types of the factors and of the right hand side
BOTH = [dict(d=d, dtype=t) for d in (1, 2, 3) for t in (
    (float, float), (complex, complex))] + [dict(d=2, dtype=t) for t in (
        (float, complex), (complex, float))]


def vec(v, name, d, square, dtype):
    f = v.fn(MOD + name)
    rows, cols, mats = factors(v, d, square, dtype=dtype[0])
    b = v.array("b", (prod(cols),), dtype[1])
    out = f(listof(mats), b)
    v.shape_is("x", out, (prod(rows),))
    v.each(rows, lambda *i: v.eq("x", v.rd(out, flat(rows, i)), dense(
        v, mats, cols, i, lambda j: v.rd(b, j))))


@P.contract(params=BOTH)
def kron_matvec(v, d, dtype):
    """(K0 (x) K1 (x) ...) b for square factors"""
    vec(v, "kron_matvec", d, True, dtype)


@P.contract(params=BOTH)
def kron_tensorvec(v, d, dtype):
    """(K0 (x) K1 (x) ...) b for rectangular factors"""
    vec(v, "kron_tensorvec", d, False, dtype)


def mat(v, name, d, square, dtype):
    f = v.fn(MOD + name)
    rows, cols, mats = factors(v, d, square, dtype=dtype[0])
    m = v.dim("m", 0)
    b = v.array("B", (prod(cols), m), dtype[1])
    out = f(listof(mats), b)
    v.shape_is("X", out, (prod(rows), m))
    v.each(rows + [m], lambda *i: v.eq(
        "X", v.rd(out, flat(rows, i[:-1]), i[-1]), dense(
            v, mats, cols, i[:-1], lambda j: v.rd(b, j, i[-1]))))


@P.contract(params=BOTH)
def kron_matmat(v, d, dtype):
    """(K0 (x) K1 (x) ...) B for square factors"""
    mat(v, "kron_matmat", d, True, dtype)


@P.contract(params=BOTH)
def kron_tensormat(v, d, dtype):
    """(K0 (x) K1 (x) ...) B for rectangular factors"""
    mat(v, "kron_tensormat", d, False, dtype)


@P.contract(params=[dict(d=d) for d in (1, 2, 3)])
def cholesky_each(v, d):
    """every factor is numpy's Cholesky factor of the matching input"""
    f = v.fn(MOD + "kron_cholesky")
    rows, cols, mats = factors(v, d, True, gen=posdef)
    keep = [m.copy() for m in mats]
    L = f(listof(mats))
    v.ensure("one factor each", len(L) == d)
    for k in range(d):
        want = v.np.linalg.cholesky(keep[k])
        v.all_eq("L%d" % k, L[k], (rows[k], rows[k]),
                 lambda i, j: v.rd(want, i, j))


@P.contract(params=[dict(d=2, big=128), dict(d=1, big=300),
                    dict(d=2, big=200)], symbolic=False, cases=12)
def wide(v, d, big):
    """bounded: factors with more than 127 rows or columns"""
    f = v.fn(MOD + "kron_tensorvec")
    r = numpy.random.RandomState(big)
    K = [r.normal(size=(2, 3)) for _ in range(d)]
    k = int(v.int("where", 0, d))
    K[k] = r.normal(size=[(big, 2), (2, big)][int(v.int("side", 0, 2))])
    full = numpy.ones((1, 1))
    for x in K:
        full = numpy.kron(full, x)
    b = r.normal(size=full.shape[1])
    out = f(listof(K), b)
    v.all_eq("x", out, (full.shape[0],), lambda i: full[i].dot(b))


@P.contract(params=[dict(d=d, kind=k) for d in (1, 2, 3)
                    for k in ("pd", "psd")], symbolic=False, cases=25)
def cholesky(v, d, kind):
    """bounded: every factor is the lower triangular Cholesky factor; the
    input is left alone"""
    f = v.fn(MOD + "kron_cholesky")
    Ks = []
    for k in range(d):
        n = v.dim("n%d" % k, 1)
        a = v.rng.normal(size=(n, n if kind == "pd" else max(n - 1, 1)))
        Ks.append(a.dot(a.T) + (numpy.eye(n) if kind == "pd" else 0))
    A = listof([x.copy() for x in Ks])
    try:
        L = f(A)
    except numpy.linalg.LinAlgError:
        v.ensure("only singular matrices fail", kind == "psd")
        return
    v.ensure("one factor each", len(L) == d)
    tol = 1e-9 if kind == "pd" else 1e-5
    for k in range(d):
        v.ensure("input kept", bool((A[k] == Ks[k]).all()))
        l = numpy.asarray(L[k], float)
        v.ensure("L L^T = K", bool(numpy.allclose(l.dot(l.T), Ks[k],
                                                  atol=tol)))
        v.ensure("lower triangular", bool((numpy.triu(l, 1) == 0).all()))
        v.ensure("positive diagonal", bool((numpy.diag(l) > 0).all()))


@P.contract(symbolic=False, cases=20)
def cholesky_singular(v):
    """bounded: a factor of exact rank one is factored with jitter"""
    f = v.fn(MOD + "kron_cholesky")
    x = numpy.array([2.0 ** v.int("e%d" % k, -2, 3) for k in range(2)])
    K = numpy.outer(x, x)
    L = f(listof([K.copy(), numpy.eye(3)]))
    l = numpy.asarray(L[0], float)
    v.ensure("L L^T = K", bool(numpy.allclose(l.dot(l.T), K, atol=1e-10)))
    v.ensure("lower triangular", bool((numpy.triu(l, 1) == 0).all()))
    v.ensure("other factor", bool((numpy.asarray(L[1], float) ==
                                   numpy.eye(3)).all()))
