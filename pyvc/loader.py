"""Mechanical extraction: every africanus module is parsed from /repo's
current working tree on every run and executed

* concrete mode  - source unchanged, under CPython, with numba's compiling
  decorators replaced by plain-Python dispatch (numba.generated_jit does not
  exist in the installed numba);
* symbolic mode  - as above, with (a) each ``for`` statement of a function
  turned into a call of the loop rule (loops.do_loop) on a nested function
  holding the loop body, (b) string formatting
  and calls of int/float/complex/bool and numpy scalar
  types routed to versions that accept symbolic values, (c) numpy, math and
  the builtins range/len/enumerate/zip/min/max/abs/sum/isinstance replaced by
  versions that accept symbolic values.  Nothing else is changed or dropped.
"""
import ast
import builtins
import importlib
import os
import sys
import types as pytypes
import inspect
import numpy as np
from . import sym, npsym, loops

REPO = os.environ.get("VC_REPO", "/repo")

NPCAST = {"float64", "float32", "complex64", "complex128", "int32", "int64",
          "int8", "uint8", "int16", "bool_", "float_", "complex_", "intp",
          "uint32", "uint64", "single", "double", "int_", "float", "int"}


# ------------------------------------------------------------------ AST pass
class ScopeNames(ast.NodeVisitor):
    """names bound / used in one function scope"""

    def __init__(self):
        self.stored, self.loaded = set(), set()
        self.globs, self.nonloc = set(), set()
        self.has_yield = False
        self.has_for = False

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.loaded.add(n.id)
        else:
            self.stored.add(n.id)

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonloc.update(n.names)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.has_yield = True
        self.generic_visit(n)

    def visit_For(self, n):
        self.has_for = True
        self.generic_visit(n)

    def visit_While(self, n):
        self.has_for = True
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.stored.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        # free names used by the nested function count as loaded
        sub = ScopeNames()
        for s in n.body:
            sub.visit(s)
        self.loaded |= sub.loaded | sub.nonloc

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        sub = ScopeNames()
        sub.visit(n.body)
        self.loaded |= sub.loaded

    def visit_ClassDef(self, n):
        self.stored.add(n.name)

    def _comp(self, n):
        sub = ScopeNames()
        for g in n.generators:
            sub.visit(g.target)
        tg = set(sub.stored)
        sub2 = ScopeNames()
        for f in ast.iter_child_nodes(n):
            sub2.visit(f)
        self.loaded |= sub2.loaded
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                self.stored.add(w.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = _comp
    visit_GeneratorExp = _comp

    def visit_comprehension(self, n):
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.stored.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.stored.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def _names(nodes):
    s = ScopeNames()
    for n in nodes:
        s.visit(n)
    return s


def N(name, ctx=None):
    return ast.Name(name, ctx or ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.stack = []     # (locals set)

    # -- "text" % values
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(
                N("_vc_fmt"), [n.left, n.right], []), n)
        return n

    # -- casts
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id == "type" and len(n.args) == 1 \
                and not n.keywords:
            n.func = N("_vc_type")
            return n
        if isinstance(f, ast.Name) and f.id in ("int", "float", "complex",
                                                "bool"):
            n.func = N("_vc_" + f.id)
        elif isinstance(f, ast.Attribute) and len(n.args) == 1 and (
                f.attr in NPCAST and isinstance(f.value, ast.Name) or
                f.attr == "type") and not n.keywords:
            n.args.insert(0, f)
            n.func = N("_vc_npcast")
        return n

    def visit_FunctionDef(self, n):
        sc = _names(n.body)
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else d for d in a.kw_defaults]
        local = (params | sc.stored) - sc.globs - sc.nonloc
        if sc.has_yield or not sc.has_for:
            self.stack.append(None)
            n.body = [self.visit(s) for s in n.body]
            self.stack.pop()
            return n
        self.stack.append(local)
        body = self.block(n.body, 0)
        self.stack.pop()
        init = sorted(local - params)
        pre = []
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            doc, body = body[:1], body[1:]
        if init:
            pre.append(ast.Assign([N(v, ast.Store()) for v in init],
                                  N("_vc_UNBOUND")))
        # keep nonlocal/global declarations first
        decl = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        body = [s for s in body if not isinstance(s, (ast.Global,
                                                      ast.Nonlocal))]
        n.body = doc + decl + pre + body
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        self.stack.append(None)
        self.generic_visit(n)
        self.stack.pop()
        return n

    # -- statements of a function with loops; depth = loop nesting
    def block(self, stmts, depth):
        out = []
        for s in stmts:
            r = self.stmt(s, depth)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s, depth):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.visit(s)
        if isinstance(s, ast.For):
            return self.for_(s, depth)
        if isinstance(s, ast.While):
            return self.while_(s, depth)
        if depth > 0:
            if isinstance(s, ast.Continue):
                return ast.Return(ast.Constant(None))
            if isinstance(s, ast.Break):
                return ast.Return(N("_vc_BRK"))
            if isinstance(s, ast.Return):
                v = self.visit(s.value) if s.value else ast.Constant(None)
                return ast.Return(ast.Call(N("_vc_Ret"), [v], []))
        if isinstance(s, ast.If):
            s.test = self.visit(s.test)
            s.body = self.block(s.body, depth)
            s.orelse = self.block(s.orelse, depth)
            return s
        if isinstance(s, (ast.With,)):
            s.items = [self.visit(i) for i in s.items]
            s.body = self.block(s.body, depth)
            return s
        if isinstance(s, ast.Try):
            s.body = self.block(s.body, depth)
            for h in s.handlers:
                if h.type is not None:
                    h.type = self.visit(h.type)
                h.body = self.block(h.body, depth)
            s.orelse = self.block(s.orelse, depth)
            s.finalbody = self.block(s.finalbody, depth)
            return s
        return self.visit(s)

    def _common(self, body_nodes, extra, depth):
        """names tracked by a loop"""
        local = self.stack[-1]
        sc = _names(body_nodes + extra)
        track = sorted((sc.stored | sc.loaded) & local)
        stored = sorted(sc.stored & local)
        return track, stored

    def getset(self, k, track):
        g = ["def _vc_get_%d():" % k, "    __d = {}"]
        for v in track:
            g += ["    try:", "        __d[%r] = %s" % (v, v),
                  "    except NameError:", "        pass"]
        g.append("    return __d")
        st = ["def _vc_set_%d(__d):" % k]
        if track:
            st.append("    nonlocal " + ", ".join(track))
            for v in track:
                st += ["    if %r in __d:" % v, "        %s = __d[%r]" % (v, v)]
        else:
            st.append("    pass")
        return ast.parse("\n".join(g)).body + ast.parse("\n".join(st)).body

    def for_(self, s, depth):
        self.k += 1
        k = self.k
        tgt = ast.Assign([s.target], N("_vc_x"))
        track, stored = self._common(s.body, [tgt], depth)
        it = self.visit(s.iter)
        body = self.block(s.body, depth + 1)
        fb = []
        if stored:
            fb.append(ast.Nonlocal(stored))
        fb += [tgt] + body
        fn = ast.FunctionDef(
            name="_vc_body_%d" % k,
            args=ast.arguments(posonlyargs=[], args=[ast.arg("_vc_x")],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=fb, decorator_list=[], type_params=[])
        out = [fn] + self.getset(k, track)
        call = ast.Call(N("_vc_loop"), [
            it, N("_vc_body_%d" % k), N("_vc_get_%d" % k),
            N("_vc_set_%d" % k), ast.Constant(s.lineno)], [])
        return out + self.after(call, s, depth)

    def after(self, call, s, depth):
        r = "_vc_r_%d" % self.k
        out = [ast.Assign([N(r, ast.Store())], call)]
        hasret = any(isinstance(x, ast.Return) for b in s.body
                     for x in ast.walk(b))
        if hasret:
            test = ast.Call(N("_vc_isret"), [N(r)], [])
            val = N(r) if depth > 0 else ast.Attribute(N(r), "v", ast.Load())
            out.append(ast.If(test, [ast.Return(val)], []))
        if s.orelse:
            out.append(ast.If(ast.Compare(N(r), [ast.IsNot()],
                                          [N("_vc_BRK")]),
                              self.block(s.orelse, depth), []))
        return out

    def while_(self, s, depth):
        self.k += 1
        k = self.k
        track, stored = self._common(s.body, [ast.Expr(s.test)], depth)
        test = self.visit(s.test)
        body = self.block(s.body, depth + 1)
        fb = []
        if stored:
            fb.append(ast.Nonlocal(stored))
        fb += body
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[])
        fn = ast.FunctionDef(name="_vc_body_%d" % k, args=noargs, body=fb,
                             decorator_list=[], type_params=[])
        tf = ast.FunctionDef(name="_vc_test_%d" % k, args=noargs,
                             body=[ast.Return(test)], decorator_list=[],
                             type_params=[])
        out = [fn, tf] + self.getset(k, track)
        call = ast.Call(N("_vc_while"), [
            N("_vc_test_%d" % k), N("_vc_body_%d" % k),
            N("_vc_get_%d" % k), N("_vc_set_%d" % k),
            ast.Constant(s.lineno)], [])
        return out + self.after(call, s, depth)


# ------------------------------------------------------------------ numba shim
def _identity_decorator(*dargs, **dkw):
    if len(dargs) == 1 and callable(dargs[0]) and not dkw and not isinstance(
            dargs[0], type) and not hasattr(dargs[0], "bitwidth"):
        return dargs[0]

    def dec(fn):
        return fn
    return dec


def numba_typeof(x, mode=None):
    import numba
    from numba import types
    from numba.np import numpy_support as ns
    if hasattr(x, "vc_numba_type"):
        return x.vc_numba_type
    if isinstance(x, sym.SArr):
        return types.Array(ns.from_dtype(x.dtype), x.ndim, "C")
    if isinstance(x, sym.SV):
        return ns.from_dtype(x.dtype)
    if x is None:
        return types.none
    if isinstance(x, np.ndarray):
        return types.Array(ns.from_dtype(x.dtype), x.ndim, "C")
    if isinstance(x, str):
        return types.unicode_type
    if isinstance(x, bool):
        return types.boolean
    if isinstance(x, tuple) and type(x) is not tuple:
        return types.NamedTuple([numba_typeof(y) for y in x], type(x))
    if isinstance(x, tuple):
        tt = [numba_typeof(y) for y in x]
        if tt and all(q == tt[0] for q in tt):
            return types.UniTuple(tt[0], len(tt))
        return types.Tuple(tt)
    if isinstance(x, list):
        return types.List(numba_typeof(x[0]), reflected=True) if x else \
            types.List(types.undefined)
    if isinstance(x, pytypes.FunctionType):
        return types.pyfunc_type if hasattr(types, "pyfunc_type") else \
            types.pyobject
    return numba.typeof(x)


def bind_types(gen, args, kwargs, literal=False):
    """types (or Omitted) per generator parameter"""
    from numba import types
    sig = inspect.signature(gen)
    ba = sig.bind(*args, **kwargs)
    out_a, out_k = [], {}
    for name, p in sig.parameters.items():
        if p.kind == p.VAR_POSITIONAL:
            for v in ba.arguments.get(name, ()):
                out_a.append(numba_typeof(v))
            continue
        if p.kind == p.VAR_KEYWORD:
            continue
        if name in ba.arguments:
            v = ba.arguments[name]
            ty = numba_typeof(v)
            if literal and (isinstance(v, str) or isinstance(v, int) and
                            not isinstance(v, bool)):
                ty = types.literal(v)
        else:
            ty = types.Omitted(p.default)
        out_a.append(ty)
    return out_a, out_k


def plain_dtypes(impl):
    """numba scalar types captured by an implementation (used as dtypes) are
    replaced by the numpy dtypes they stand for"""
    from numba import types
    for cell in getattr(impl, "__closure__", None) or ():
        try:
            x = cell.cell_contents
        except ValueError:
            continue
        if isinstance(x, (types.Float, types.Complex, types.Integer)):
            cell.cell_contents = np.dtype(x.name)
    return impl


def generated_jit(*dargs, **dkw):
    def dec(gen):
        def wrapper(*args, **kwargs):
            ta, tk = bind_types(gen, args, kwargs)
            try:
                impl = gen(*ta, **tk)
            except Exception:
                # as numba does: typing is retried with literal types
                la, lk = bind_types(gen, args, kwargs, literal=True)
                if la == ta and all(type(x) is type(y)
                                    for x, y in zip(la, ta)):
                    raise
                impl = gen(*la, **lk)
            return plain_dtypes(impl)(*args, **kwargs)
        wrapper.__name__ = gen.__name__
        wrapper.__doc__ = gen.__doc__
        wrapper.__module__ = gen.__module__
        wrapper.__wrapped__ = gen
        wrapper._vc_generator_ = gen
        return wrapper
    if len(dargs) == 1 and callable(dargs[0]) and not dkw:
        return dec(dargs[0])
    return dec


OVERLOADS = {}


def overload(stub, *a, **k):
    def dec(gen):
        key = "%s.%s.%d" % (stub.__module__, stub.__name__, id(stub))
        OVERLOADS.setdefault(key, []).append(gen)
        src = ("def tramp(*args, **kwargs):\n"
               "    return _vc_overload_dispatch__(%r, args, kwargs)\n" % key)
        ns = {}
        exec(src, ns)
        if isinstance(stub, pytypes.FunctionType):
            stub.__code__ = ns["tramp"].__code__
            stub.__defaults__ = None
            stub.__kwdefaults__ = None
        return gen
    return dec


def overload_dispatch(key, args, kwargs):
    for gen in OVERLOADS[key]:
        ta, tk = bind_types(gen, args, kwargs, literal=True)
        impl = gen(*ta, **tk)
        if impl is not None:
            return impl(*args, **kwargs)
    raise TypeError("no overload for %s" % key)


def make_numba_shim(prange):
    import numba
    m = pytypes.ModuleType("numba")
    m.jit = m.njit = m.vectorize = m.guvectorize = _identity_decorator
    m.cfunc = m.stencil = _identity_decorator
    m.generated_jit = generated_jit
    m.literally = lambda x: x
    m.prange = prange
    m.typeof = numba_typeof

    class Ext(pytypes.ModuleType):
        def __getattr__(self, n):
            import numba.extending as e
            return getattr(e, n)
    ext = Ext("numba.extending")
    ext.overload = overload
    ext.register_jitable = _identity_decorator
    ext.overload_method = lambda *a, **k: (lambda f: f)
    m.extending = ext

    def ga(n):
        return getattr(numba, n)
    m.__getattr__ = ga
    m.__path__ = []
    return m, ext


# ------------------------------------------------------------------ importer
class Space(object):
    """a set of africanus modules loaded from REPO in one mode"""

    def __init__(self, symbolic, repo=None):
        self.symbolic = symbolic
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = {}       # module name -> replacement module
        self.numba, self.numba_ext = make_numba_shim(
            npsym.b_range if symbolic else range)
        self.np = npsym.NumpyProxy(symbolic)
        self.files = {}
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["_vc_overload_dispatch__"] = overload_dispatch
        if symbolic:
            b.update(range=npsym.b_range, len=npsym.b_len,
                     enumerate=npsym.b_enumerate, zip=npsym.b_zip,
                     min=npsym.b_min, max=npsym.b_max, sum=npsym.b_sum,
                     isinstance=npsym.b_isinstance, any=npsym.b_any,
                     all=npsym.b_all, round=npsym.b_round,
                     _vc_int=npsym.b_int, _vc_float=npsym.b_float,
                     _vc_complex=npsym.b_complex, _vc_bool=npsym.b_bool,
                     _vc_npcast=npcast, _vc_type=vc_type, _vc_fmt=vc_fmt, _vc_loop=loops.do_loop,
                     _vc_while=loops.do_while,
                     _vc_BRK=loops.BRK, _vc_Ret=loops.Ret,
                     _vc_isret=lambda r: isinstance(r, loops.Ret),
                     _vc_UNBOUND=sym.UNBOUND)
        self.builtins = b

    def path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        p, pkg = self.path(name)
        if p is None:
            raise ImportError("No module named %r" % name)
        m = pytypes.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        with open(p) as f:
            src = f.read()
        self.files[name] = p
        tree = ast.parse(src, p)
        if not self.symbolic and "jit" in src:
            m.__dict__["range"] = nb_range
        if self.symbolic:
            tree = Instrument().visit(tree)
            ast.fix_missing_locations(tree)
        try:
            exec(compile(tree, p, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods and leaf not in self.mods[par].__dict__:
                setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top == "africanus":
            m = self.load(name)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a):
                        try:
                            self.load(name + "." + a)
                        except ImportError:
                            pass
                return m
            return self.load("africanus")
        if name == "numpy":
            return self.np
        if name == "math" and self.symbolic:
            return npsym.MathProxy()
        if top == "numba":
            if name == "numba":
                return self.numba
            if name == "numba.extending":
                return self.numba_ext if fromlist else self.numba
            m = importlib.import_module(name)
            return m if fromlist else self.numba
        if name.split(".")[0] in self.overrides and not fromlist:
            return self.overrides[name.split(".")[0]]
        if name in self.overrides:
            return self.overrides[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def get(self, path):
        mod, _, attr = path.rpartition(":")
        m = self.load(mod)
        return getattr(m, attr)


def vc_fmt(text, args):
    """message text; symbolic values are shown as they are"""
    try:
        return text % args
    except sym.Unsupported:
        return text + repr(args)


def vc_type(x):
    if isinstance(x, sym.SV):
        return x.dt.type
    if isinstance(x, sym.SArr):
        return np.ndarray
    return type(x)


def nb_range(*a):
    """compiled code truncates the bounds of a range"""
    return range(*[int(x) if isinstance(x, (float, np.floating)) else x
                   for x in a])


def npcast(ty, x):
    if isinstance(x, (sym.SV,)):
        return sym.cast(x, ty)
    if isinstance(x, sym.SArr):
        return x.astype(ty)
    return ty(x)
