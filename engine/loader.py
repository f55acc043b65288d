"""Loads the package under verification from its source text (recompiled on every run).

World(shims)        a private module table in which `import numpy` etc. resolve to the given shims;
World(None)         the same with the real libraries (used to replay counterexamples).
"""
import ast
import builtins
import os
import sys
import types
import warnings
import importlib
from fractions import Fraction
from . import terms as T
from . import loops, seq
from .terms import Sym, SymBool, Unsupported

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG = "einsteinpy"
sys.dont_write_bytecode = True


def _isinstance(x, cls):
    if builtins.isinstance(x, Sym):
        cl = cls if builtins.isinstance(cls, tuple) else (cls,)
        import numpy as np
        import numbers
        for c in cl:
            if c in (float, np.floating, np.number, np.float64, numbers.Number, numbers.Real, numbers.Complex, SFloat, object, Sym):
                return True
            if c in (int, np.integer, SInt, complex):
                continue
            if builtins.isinstance(c, tuple) and _isinstance(x, c):
                return True
            if getattr(c, "__name__", "") == "F64":
                return True
        return False
    cls2 = cls if builtins.isinstance(cls, tuple) else (cls,)
    cls2 = tuple({SFloat: float, SInt: int, seq.SList: list, seq.STuple: tuple}.get(c, c) if builtins.isinstance(c, type) else c for c in cls2)
    return builtins.isinstance(x, cls2 if len(cls2) > 1 else cls2[0])


class SFloat(float):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, Sym):
            return x
        if hasattr(x, "_is_shim_quantity"):
            return x.dimensionless_value()
        return float(x)


class SInt(int):
    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, Sym) and x.op != "const":
            return T.fn("trunc", x)
        if builtins.isinstance(x, Sym):
            return int(x.args[0])
        return int(x, *a)


def _round(x, n=None):
    if builtins.isinstance(x, Sym) and x.op != "const":
        raise Unsupported("round of a symbolic value")
    if builtins.isinstance(x, Sym):
        x = float(x)
    return builtins.round(x) if n is None else builtins.round(x, n)


def _range(*a):
    return builtins.range(*[int(x) if builtins.isinstance(x, Sym) else x for x in a])


def _vdiv(a, b):
    """a / b; a quotient of machine numbers that is not representable is kept as the exact rational"""
    if type(a) in (int, float) and type(b) in (int, float):
        r = a / b
        try:
            x = _simplest(a) / _simplest(b)
        except (OverflowError, ValueError):
            return r
        return r if Fraction(r) == x else T.const(x)
    return a / b


def _simplest(a):
    if type(a) is int:
        return Fraction(a)
    return T.lift(a).args[0]


def _vpow(a, b):
    if type(a) in (int, float) and type(b) in (int, float) and not (type(a) is int and type(b) is int and b >= 0):
        r = a ** b
        if builtins.isinstance(r, complex):
            return r
        try:
            x, y = _simplest(a), _simplest(b)
        except (OverflowError, ValueError):
            return r
        if y.denominator == 1:
            x = x ** y.numerator
            return r if Fraction(r) == x else T.const(x)
        if Fraction(r) ** y.denominator == x ** y.numerator:
            return r
        return T.pow_(T.const(x), T.const(y))
    return a ** b


class _Exact(ast.NodeTransformer):
    """a / b -> __vdiv__(a, b), a ** b -> __vpow__(a, b): with the loop rule (loops.py) the only rewriting applied to the source"""

    def fun(self, op):
        return {ast.Div: "__vdiv__", ast.Pow: "__vpow__"}.get(type(op))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = self.fun(n.op)
        if f is None:
            return n
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=f, ctx=ast.Load()), n), args=[n.left, n.right], keywords=[]), n)


class World:
    def __init__(self, shims=None, sym=False, loop_rule=None, generic=False):
        self.shims = shims or {}
        self.modules = {}
        self.sym = sym
        self.loading = []
        b = dict(vars(builtins))
        b["__import__"] = self._import
        if sym:
            b["isinstance"] = _isinstance
            b["float"] = SFloat
            b["int"] = SInt
            b["round"] = _round
            b["range"] = _range
            b["__vdiv__"] = _vdiv
            b["__vpow__"] = _vpow
        self.builtins = b
        self.loop_rule = loop_rule
        if loop_rule:
            b["__loop__"] = loop_rule
        self.generic = generic
        if generic:
            b.update(seq.BUILTINS)
            b.update({"__loop__": lambda loc, names: seq.While(seq.K, loc, names), "__for__": lambda loc, names, targets, it: seq.For(seq.K, loc, names, targets, it), "__comp__": seq.comp, "__lazy__": seq.lazy, "__glist__": seq.GList})

    # ---- locating sources
    def _path(self, name):
        rel = name.split(".")
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        raise ModuleNotFoundError("No module named '%s'" % name, name=name)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent, _, child = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.modules.get(name)
            if m is not None:
                return m
        path, ispkg = self._path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__dict__["__builtins__"] = self.builtins
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.modules[name] = m
        with open(path, "rb") as f:
            src = f.read()
        try:
            if self.sym:
                tree = _Exact().visit(ast.parse(src, path))
                if self.loop_rule:
                    tree = loops.Instrument(name).visit(tree)
                if self.generic:
                    tree = seq.Instrument(name).visit(tree)
                src = ast.fix_missing_locations(tree)
            code = compile(src, path, "exec", dont_inherit=True)
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules[full.split(".")[0]] if not level else m
        if full in self.shims or full.split(".")[0] in self.shims:
            root = full.split(".")[0]
            if self.shims.get(full, self.shims.get(root)) is None:
                raise ImportError("No module named %r (not available under verification)" % full)
            if fromlist:
                if full in self.shims:
                    m = self.shims[full]
                    for f in fromlist:
                        sub = full + "." + f
                        if sub in self.shims:
                            setattr(m, f, self.shims[sub])
                    return m
                m = self.shims[root]
                for part in full.split(".")[1:]:
                    m = getattr(m, part)
                return m
            if "." in full and full not in self.shims:
                m = self.shims[root]
                for part in full.split(".")[1:]:
                    m = getattr(m, part)
            return self.shims[root]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def get(self, dotted):
        """'einsteinpy.mod:Qual.name'"""
        mod, _, q = dotted.partition(":")
        o = self.load(mod)
        for p in q.split(".") if q else []:
            o = getattr(o, p)
        return o


class Recorder(types.ModuleType):
    """stand-in for a plotting / drawing library: records every call"""
    log = None

    def __init__(self, name, log):
        super().__init__(name)
        self.__dict__["_n"] = name
        self.__dict__["_log"] = log

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = RecCall(self._n + "." + n, self._log)
        self.__dict__[n] = r
        return r


class RecCall:
    def __init__(self, name, log):
        self.__dict__["_n"] = name
        self.__dict__["_log"] = log

    def __call__(self, *a, **k):
        r = RecCall(self._n + "()", self._log)
        self._log.append((self._n, a, k, r))
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = RecCall(self._n + "." + n, self._log)
        self.__dict__[n] = r
        return r

    def __setattr__(self, n, v):
        self._log.append((self._n + "." + n + "=", (v,), {}, None))
        self.__dict__[n] = v

    def __iter__(self):
        n = 1 if self._n.endswith(".plot()") else 2      # Axes.plot returns one line per curve; subplots() a figure and axes
        return iter([RecCall(self._n + "[%d]" % i, self._log) for i in range(n)])

    def __getitem__(self, i):
        return RecCall(self._n + "[%s]" % (i,), self._log)

    def __setitem__(self, i, v):
        self._log.append((self._n + "[]=", (i, v), {}, None))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __mro_entries__(self, bases):
        return (object,)


def solver_class(log):
    """contract of scipy.integrate.RK45 (external): keeps what it is given; step() advances or raises RuntimeError when not running"""
    class RK45:
        TOO_SMALL_STEP = "Required step size is less than spacing between numbers."

        def __init__(self, fun, t0, y0, t_bound, max_step=float("inf"), rtol=1e-3, atol=1e-6, vectorized=False, first_step=None, **extra):
            log.append(("scipy.integrate.RK45", (fun, t0, y0, t_bound), dict(max_step=max_step, rtol=rtol, atol=atol, vectorized=vectorized, first_step=first_step, **extra), self))
            self.t_old, self.t, self.y, self.t_bound = None, t0, y0, t_bound
            self.max_step, self.rtol, self.atol, self.h_abs, self.vectorized = max_step, rtol, atol, first_step, vectorized
            self.fun = (lambda t, y: fun(t, y[:, None]).ravel()) if vectorized else fun
            self.status, self.steps_done = "running", 0

        def step(self):
            if self.status != "running":
                raise RuntimeError("Attempt to step on a failed or finished solver.")
            self.steps_done += 1
            self.t_old = self.t
            self.t = T.app("solver_t", [T.lift_or_fail(self.t_old), T.const(self.steps_done)])
            return None
    return RK45
