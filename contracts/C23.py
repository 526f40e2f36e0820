"""Utilities: assignments on the command line, memoisation, optional
requirements, documentation templates and progress estimates."""
import threading
import time

from pyvc.registry import Prop

P = Prop("C23", ["threads are exercised with one schedule per case"])
U = "africanus.util."


# ------------------------------------------------------ assignment strings

def literal(v, depth=0):
    k = v.int("kind", 0, 6 if depth < 2 else 4)
    if k == 0:
        return v.int("int", -9, 99)
    if k == 1:
        return v.real("real")
    if k == 2:
        return v.choice(["a", "hello, world", "x;y", "=", "it's", ""])
    if k == 3:
        return v.choice([True, False, None])
    if k == 4:
        return v.choice([slice(None), slice(3), slice(1, 5),
                         slice(None, 7, 2), slice(-3, None)])
    items = [literal(v, 2) for _ in range(v.int("items", 0, 3))]
    items = [x for x in items if not isinstance(x, slice)]
    return items if k == 5 else tuple(items)


def text(x):
    if isinstance(x, slice):
        if x.step is not None:
            return "slice(%r, %r, %r)" % (x.start, x.stop, x.step)
        return "slice(%r)" % x.stop if x.start is None else \
            "slice(%r, %r)" % (x.start, x.stop)
    return repr(x)


@P.contract(symbolic=False, cases=300)
def assigns(v):
    """every name maps to the value last assigned to it"""
    f = v.fn(U + "cmdline:parse_python_assigns")
    want, parts = {}, []
    for _ in range(v.int("statements", 0, 4)):
        names = [v.choice(["a", "b", "beta", "_x", "ll"])
                 for _ in range(v.int("names", 1, 3))]
        x = literal(v)
        how = v.int("how", 0, 2)
        if how == 0:
            parts.append(" = ".join(names) + "=" + text(x))
            for n in names:
                want[n] = x
        elif how == 1:
            xs = [literal(v, 2) for _ in names]
            xs = [None if isinstance(y, slice) else y for y in xs]
            b = v.choice(["()", "[]"])
            parts.append("%s%s,%s = %s" % (
                b[0], ",".join(names), b[1], text(tuple(xs))))
            for n, y in zip(names, xs):
                want[n] = y
        else:
            n = names[0]
            parts.append("%s=%s" % (n, text(x)))
            want[n] = x
    got = f(v.choice(["; ", ";"]).join(parts))
    v.ensure("names", set(got) == set(want))
    for n in want:
        v.ensure("value", got[n] == want[n] and type(got[n]) is type(
            want[n]))


@P.contract(symbolic=False, cases=2)
def assigns_refused(v):
    """nothing but assignments of literals is evaluated"""
    f = v.fn(U + "cmdline:parse_python_assigns")
    v.ensure("empty", f("") == {} and f(None) == {})
    hit = []
    import builtins
    builtins.vc_probe = lambda *a: hit.append(a)
    try:
        for s in ("a=open('/nowhere')", "a=eval('1')", "a=exec('1')",
                  "a=vc_probe(1)", "a=slice(vc_probe(1))",
                  "a=[vc_probe(1)]", "a=__import__('os')", "a=print()",
                  "a=int('3')", "a=list()", "vc_probe(1)", "a; b=1",
                  "a, b = 1, 2, 3", "a, b = 5", "a += 1", "import os",
                  "del a", "a.b = 1", "a[0] = 1", "a = b", "a, b.c = 1, 2",
                  "a=(lambda: 1)()", "a=vc_probe", "a=1+vc_probe(1)",
                  "a=slice(stop=vc_probe(1))", "a=''.join([])",
                  "assert vc_probe(1)", "a=f'{vc_probe(1)}'"):
            try:
                r = f(s)
            except (ValueError, TypeError, AttributeError, SyntaxError):
                pass
            else:
                v.ensure("refused: %s -> %r" % (s, r), False)
        v.ensure("no call", not hit)
    finally:
        del builtins.vc_probe


# ------------------------------------------------------------ memoisation

@P.contract(symbolic=False, cases=60)
def memoise(v):
    """one evaluation per key, for every history of calls; the value of the
    first call is returned ever after, exceptions are not stored"""
    memo = v.fn(U + "code:memoize_on_key")
    calls = []
    fail = set()

    def key(a, b=2, *c, **kw):
        return (a, b)

    def fn(a, b=2, *c, **kw):
        calls.append((a, b))
        if (a, b) in fail:
            raise KeyError("no " + str(a))
        return [a, b, c, len(calls)]
    g = memo(key)(fn)
    other = memo(key)(lambda *a, **k: "other")
    seen = {}
    for _ in range(v.int("calls", 1, 15)):
        a, b = v.int("a", 0, 2), v.int("b", 1, 3)
        args, kw = v.choice([((a, b), {}), ((a,), {"b": b}),
                             ((a, b, 7), {}), ((), {"a": a, "b": b}),
                             ((a, b), {"z": 1})])
        fail.clear()
        if (a, b) not in seen and v.bool("fails"):
            fail.add((a, b))
            v.raises("passed on", KeyError, lambda: g(*args, **kw))
            continue
        n = len(calls)
        r = g(*args, **kw)
        if (a, b) in seen:
            v.ensure("same object", r is seen[a, b])
            v.ensure("not evaluated again", len(calls) == n)
        else:
            v.ensure("evaluated once", len(calls) == n + 1)
            v.ensure("value", r == [a, b, args[2:], n + 1])
            seen[a, b] = r
    v.ensure("separate caches", other(0, 1) == "other")
    v.ensure("wrapped", g.__name__ == "fn")


@P.contract(symbolic=False, cases=6)
def memoise_threads(v):
    """also when many threads ask at once"""
    memo = v.fn(U + "code:memoize_on_key")
    calls = []

    def fn(k):
        calls.append(k)
        time.sleep(0.004)
        return object()
    g = memo(lambda k: k)(fn)
    n = v.int("threads", 2, 8)
    start, out = threading.Barrier(n), []

    def go(i):
        start.wait()
        out.append((i % 2, g(i % 2)))
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in (0, 1):
        v.ensure("one object", len({id(o) for j, o in out if j == k}) <= 1)
        v.ensure("one call", calls.count(k) <= 1)


@P.contract(symbolic=False, cases=4)
def singleton(v):
    mix = v.fn(U + "code:SingletonMixin")
    made = []

    class S(mix):
        def __init__(self):
            time.sleep(0.003)
            made.append(self)
    n = v.int("threads", 2, 8)
    start, out = threading.Barrier(n), []

    def go():
        start.wait()
        out.append(S.instance())
    ts = [threading.Thread(target=go) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    v.ensure("one", len(made) == 1 and all(o is made[0] for o in out))
    v.ensure("again", S.instance() is made[0])


@P.contract(symbolic=False, cases=100)
def numbered(v):
    """every line keeps its text and gets its number"""
    f = v.fn(U + "code:format_code")
    lines = [v.choice(["", "x = 1", "  y", "%d", "\t#"])
             for _ in range(v.int("lines", 1, 12))]
    out = f("\n".join(lines)).split("\n")
    v.ensure("lines", len(out) == len(lines) + 1 and out[0] == "")
    for i, (o, l) in enumerate(zip(out[1:], lines), 1):
        v.ensure("line", o == str(i).ljust(5) + " " + l)


# -------------------------------------------------- optional requirements

@P.contract(symbolic=False, cases=80)
def requirements(v):
    """the function itself when everything is there; otherwise a function of
    the same signature that refuses to run"""
    m = v.module(U + "requirements")
    tst = v.module(U + "testing")
    ran = []

    def fn(x, y=3, *a, **k):
        "the docs"
        ran.append(x)
        return x + y
    reqs, missing = [], False
    for _ in range(v.int("requirements", 0, 4)):
        k = v.int("kind", 0, 2)
        if k == 0:
            reqs.append(v.choice(["math", "json", "os.path"]))
        elif k == 1:
            reqs.append(v.choice(["no_such_pkg_a", "no_such_pkg.b"]))
            missing = True
        else:
            reqs.append(None)
    err = v.bool("import error")
    if err:
        reqs.insert(v.int("at", 0, len(reqs)), ImportError("broken"))
    force = v.bool("force")
    if force:
        reqs.append(tst.force_missing_pkg_exception)
    if err and not missing:
        v.raises("re-raised", ImportError,
                 lambda: m.requires_optional(*reqs))
        return
    g = m.requires_optional(*reqs)(fn)
    if not missing:
        v.ensure("itself", g is fn)
        return
    v.raises("missing", m.MissingPackageException, lambda: g(1))
    v.raises("missing", m.MissingPackageException, lambda: g(1, y=2))
    v.ensure("not run", not ran)
    v.ensure("name and docs", g.__name__ == "fn" and
             g.__doc__ == "the docs")
    v.raises("signature", TypeError, lambda: g())
    # inside pytest the test is skipped unless forced
    import pytest
    tst.mark_in_pytest(True)
    try:
        v.ensure("marker", tst.in_pytest() is True)
        exc = m.MissingPackageException if force else pytest.skip.Exception
        try:
            g(1)
        except BaseException as e:
            v.ensure("skipped", isinstance(e, exc))
        else:
            v.ensure("skipped", False)
    finally:
        tst.mark_in_pytest(False)
    v.ensure("marker", tst.in_pytest() is False)
    v.raises("marker type", TypeError, lambda: tst.mark_in_pytest(1))
    v.raises("bad requirement", TypeError,
             lambda: m.requires_optional(3.0))


# ------------------------------------------------------------------- docs

@P.contract(symbolic=False, cases=100)
def docs(v):
    m = v.module(U + "docs")
    words = [v.choice(["alpha", "$$", "(x)", "np", ":class:`a`", "10$$%"])
             for _ in range(v.int("words", 0, 6))]
    body = " ".join(words)
    val = v.choice(["V", "x.y", "$ (z)"])
    out = m.DocstringTemplate(body + "|$(name)|$name|").substitute(name=val)
    v.ensure("template", out == body.replace("$$", "$") + "|%s|%s|" % (
        val, val))
    v.ensure("replacements", m.mod_docs("a b a", [("a", "b"), ("b", "c")])
             == "c c c")
    import collections
    T = collections.namedtuple("T", "one two three")
    parts = ["p1 ", "p2 ", "p3"]
    v.ensure("joined", m.doc_tuple_to_str(T(*parts)) == "p1 p2 p3")
    v.ensure("joined and replaced", m.doc_tuple_to_str(
        T(*parts), [("p", "q")]) == "q1 q2 q3")
    d = collections.OrderedDict(zip("abc", parts))
    v.ensure("dictionary", m.doc_tuple_to_str(d) == "p1 p2 p3")
    x = m.DefaultOut("sys.stdout")
    v.ensure("default", repr(x) == str(x) == "sys.stdout")


@P.contract(symbolic=False, cases=20)
def hashing(v):
    import hashlib
    import os
    import tempfile
    f = v.fn(U + "files:sha_hash_file")
    data = bytes(range(256)) * v.choice([0, 1, 3, 4096, 4097, 9000])
    fd, p = tempfile.mkstemp()
    try:
        with os.fdopen(fd, "wb") as fh:
            fh.write(data)
        v.ensure("sha1", f(p) == hashlib.sha1(data).hexdigest())
    finally:
        os.remove(p)


# -------------------------------------------------------------- progress

@P.contract(symbolic=False, cases=300)
def times(v):
    """the two largest units of the time"""
    f = v.fn(U + "dask_util:format_time")
    t = v.int("t", 0, v.choice([59, 3599, 86399, 604799, 90000000]))
    n = [t // 604800, t // 86400 % 7, t // 3600 % 24, t // 60 % 60, t % 60]
    k = next((i for i in range(4) if n[i]), 4)
    v.ensure("text", f(t) == (
        "%5ds" % t if k == 4 else "%2d%s%2d%s" % (
            n[k], "wdhm"[k], n[k + 1], "dhms"[k])))


class Out(object):
    def __init__(self):
        self.msgs = []

    def write(self, m):
        self.msgs.append(m)

    def flush(self):
        pass


@P.contract(symbolic=False, cases=150)
def estimate(v):
    """the estimate is the average time of every kind of task, scaled to the
    elapsed time, and only changes when further tasks completed"""
    m = v.module(U + "dask_util")
    pb = m.EstimatingProgressBar(out=Out(), width=v.int("width", 1, 50))
    pb.task_data = {}
    done = tot = 0
    est = spent = 0.0
    for i in range(v.int("kinds", 0, 4)):
        n = v.int("n", 1, 5)
        c = v.int("c", 0, n)
        s = v.real("s", lo=0.1, hi=9.0) if c else 0.0
        pb.task_data["k%d" % i] = m.TaskData(c, n, s)
        done, tot = done + c, tot + n
        if c:
            est += s / c * n
            spent += s
    el = v.real("elapsed", lo=0.5, hi=40.0)
    prev = v.choice([0, done, done + 1])
    prev_est = v.real("prev estimate", lo=1.0, hi=9.0) if prev else 0.0
    if done == 0 and prev != 0:
        return
    c, e = m.update_bar(el, prev, prev_est, pb)
    v.ensure("completed", c == done)
    v.eq("estimate", e, prev_est if done == prev else est * el / spent)
    v.ensure("one message", len(pb._file.msgs) == 1)
    msg = pb._file.msgs[0]
    v.ensure("times", msg.rsplit("| ", 1)[1] == "%s / ~%s" % (
        m.format_time(el), "???" if e == 0.0 else m.format_time(e)))
    fr = 0.0 if el < 10 or e <= 0 else el / e
    v.ensure("percentage", "| %d%% Complete" % int(100 * fr) in msg)


@P.contract(symbolic=False, cases=40)
def counting(v):
    """every task of the graph is counted once under its name and completed
    once; the thread ends with the computation"""
    m = v.module(U + "dask_util")
    pb = m.EstimatingProgressBar(out=Out(), minimum=1000, dt=0.001)
    names = ["a", "b-1", b"c"]
    dsk = {}
    for i in range(v.int("tasks", 0, 8)):
        n = v.choice(names)
        dsk[v.choice([(n, i), (n, i, 0), n])] = i
    pb._start(dsk)
    try:
        want = {}
        for k in dsk:
            k = k[0] if isinstance(k, tuple) else k
            k = k.decode() if isinstance(k, bytes) else k
            want[k] = want.get(k, 0) + 1
        v.ensure("totals", {k: d.total for k, d in pb.task_data.items()} ==
                 want)
        left = dict(want)
        for k in list(dsk):
            pb._pretask(k, dsk, None)
            pb._posttask(k, 1, dsk, None, 0)
            k = k[0] if isinstance(k, tuple) else k
            k = k.decode() if isinstance(k, bytes) else k
            left[k] -= 1
            v.ensure("completed", pb.task_data[k].completed ==
                     want[k] - left[k])
            v.ensure("time", pb.task_data[k].time_sum >= 0.0)
        v.ensure("all", not pb.task_start)
    finally:
        th = pb.thread
        pb._finish(dsk, None, False)
        th.join(5.0)
    v.ensure("thread ended", not th.is_alive())


@P.contract(symbolic=False, cases=4)
def steady(v):
    """between completions the displayed estimate does not change"""
    m = v.module(U + "dask_util")
    pb = m.EstimatingProgressBar(out=Out(), dt=0.0)
    pb.task_data = {"a": m.TaskData(2, 9, 3.0)}
    args, n = [], v.int("updates", 3, 6)
    real = m.update_bar

    class Running(object):
        k = 0

        def is_set(self):
            self.k += 1
            return self.k <= n
    pb.running = Running()
    clock = iter(range(0, 1000, 20))

    def spy(el, c, e, pb):
        r = real(el, c, e, pb)
        args.append(r)
        return r
    old = m.default_timer
    m.default_timer, m.update_bar = lambda: next(clock), spy
    try:
        m.timer_func(pb)
    finally:
        m.default_timer, m.update_bar = old, real
    v.ensure("updates", len(args) == n)
    v.ensure("same estimate", len({e for c, e in args}) == 1)


@P.contract()
def taskdata(v):
    """statistics add up component by component"""
    T = v.fn(U + "dask_util:TaskData")
    a = [v.int("c1", 0), v.int("t1", 0), v.real("s1")]
    b = [v.int("c2", 0), v.int("t2", 0), v.real("s2")]
    s = T(*a) + T(*b)
    w = T(*a)
    w += T(*b)
    for r in (s, w):
        v.eq("completed", r.completed, a[0] + b[0])
        v.eq("total", r.total, a[1] + b[1])
        v.eq("time", r.time_sum, a[2] + b[2])
