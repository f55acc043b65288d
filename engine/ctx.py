"""Verification contexts: SymK executes a harness symbolically and discharges obligations,
ConK runs the same harness on the real package with concrete numbers."""
import os
import math
import random
import time
import traceback
import types
import warnings
import numpy as _np
import mpmath as _mp
from fractions import Fraction
from . import terms as T
from .terms import Sym, SymBool, Unsupported
from .alg import Alg, TooBig
from .smt import Smt, make_oracle
from . import smt as _smt
from . import npshim, unitshim, loader, symshim, loops, seq


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Reject(Exception):
    """concrete input does not satisfy the precondition"""


class Mismatch(Exception):
    def __init__(self, label, got, want, err=None):
        super().__init__(label)
        self.label, self.got, self.want, self.err = label, got, want, err


SPECIAL = [0.0, 1.0, -1.0, 2.0, 0.5]


def default_sampler(kind):
    def real(rng, env):
        p = rng.random()
        if p < 0.12:
            return rng.choice(SPECIAL)
        if p < 0.2:
            return rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 3)
        return rng.uniform(-3, 3)

    def pos(rng, env):
        p = rng.random()
        if p < 0.1:
            return rng.choice([1.0, 2.0, 0.5])
        return rng.uniform(0.2, 4)

    def nonneg(rng, env):
        return 0.0 if rng.random() < 0.1 else pos(rng, env)

    def neg(rng, env):
        return -pos(rng, env)

    def polar(rng, env):
        p = rng.random()
        if p < 0.1:
            return math.pi / 2
        return rng.uniform(0.15, math.pi - 0.15)

    def azimuth(rng, env):
        p = rng.random()
        if p < 0.15:
            return rng.choice([0.0, math.pi / 2, -math.pi / 2, 1.0])
        return rng.uniform(-math.pi + 0.05, math.pi - 0.05)

    def unit(rng, env):
        p = rng.random()
        if p < 0.1:
            return 0.0
        if p < 0.15:
            return 1.0
        return rng.uniform(0, 1)
    return dict(real=real, pos=pos, nonneg=nonneg, neg=neg, polar=polar, azimuth=azimuth, unit=unit)[kind]


def flatten(x, path=""):
    """structure -> list of (path, leaf)"""
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return [(path, x.item())]
        out = []
        for i in _np.ndindex(*x.shape):
            out.append((path + str(list(i)), x[i]))
        return out
    if isinstance(x, (list, tuple)):
        out = []
        for i, y in enumerate(x):
            out += flatten(y, path + "[%d]" % i)
        return out
    return [(path, x)]


def shape_of(x):
    if isinstance(x, _np.ndarray):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if len(x) and isinstance(x[0], (list, tuple, _np.ndarray)) else ())
    return ()


class Obligation:
    __slots__ = ("label", "kind", "status", "how", "time", "note", "env")

    def __init__(self, label, kind, status, how="", t=0.0, note="", env=None):
        self.label, self.kind, self.status, self.how, self.time, self.note, self.env = label, kind, status, how, t, note, env

    def d(self):
        return {k: getattr(self, k) for k in self.__slots__}


# ============================================================================================ symbolic
class SymK:
    sym = True

    def __init__(self, seed=1, contracts=(), shims=None, budget=60.0, generic=False):
        self.seed, self.generic = seed, generic
        self.contracts = list(contracts)
        self.extra_shims = shims or {}
        self.budget = budget
        self.obligations = []
        self.paths = 0
        self.contract_uses = {}

    # ---- exploration
    def explore(self, harness, variant):
        self.t_end = time.time() + self.budget
        stack = [[]]
        self.witnessed = False
        self.loop_sums = {}
        while stack:
            prefix = stack.pop()
            self.prefix, self.taken, self.pending, self.decided = prefix, [], [], set()
            self.start_path()
            T.Sym.decide = self.decide
            T.Sym.on_domain = self.domain
            ok, before = True, len(self.obligations)
            try:
                harness(self, **variant)
            except Infeasible:
                ok = False
            except loops.PathSkip:
                ok = False
                del self.obligations[before:]
            except (Mismatch, loops.PathEnd):
                pass
            finally:
                T.Sym.decide = None
                T.Sym.on_domain = None
            stack.extend(self.pending)
            if ok:
                self.finish_path()
                self.paths += 1
            if self.paths > 400:
                raise Undecided("too many paths")
        self.obligations.append(Obligation("precondition is satisfiable", "cover", "proved" if self.witnessed else "unknown", "witness"))
        return self.obligations

    def start_path(self):
        self.kinds = {"c": "pos", "G": "pos", "eps0": "pos"}
        self.decls = []
        self.path = []
        self.in_code = False
        self.domains = {}
        self.ghost = {}
        self.alg = Alg(make_oracle(lambda: self.path))
        self.alg.kinds = self.kinds
        self.smt = Smt(self.alg)
        self.funs = {}
        self.log = []
        sh = unitshim.make()
        self.np = sh["numpy"] = npshim.make_numpy()
        sh["numba"] = None
        for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.animation", "matplotlib.patches", "mpl_toolkits", "mpl_toolkits.mplot3d", "plotly", "plotly.graph_objects",
                  "plotly.offline", "scipy", "scipy.optimize", "scipy.interpolate", "scipy.integrate", "IPython"):
            sh[n] = loader.Recorder(n, self.log)
        sh["scipy.integrate"].__dict__["RK45"] = loader.solver_class(self.log)
        sh.update({k: v(self) if callable(v) and not isinstance(v, types.ModuleType) else v for k, v in self.extra_shims.items()})
        sy = symshim.make(self)
        self.S, self.sympy_inverse = sy["sympy"], sy["_inverse"]
        sh.update({m: v for m, v in sy.items() if not m.startswith("_")})
        self.u = sh["astropy.units"]
        self.loops, self.loop_log, self.loop_hook = [], [], None
        self.world = loader.World(sh, sym=True, loop_rule=lambda loc, names: loops.Loop(self, loc, names), generic=self.generic)
        seq.K, self.in_loop, self.extremes, self.lengths = self, False, {}, []
        if self.generic:
            seq.install(self.np)
        self.rng = random.Random(self.seed)
        for c in self.contracts:
            self.install(c)

    def install(self, c):
        """replace the contracted function by its contract wherever it is referenced"""
        self.pending_contracts = getattr(self, "pending_contracts", {})
        modname, _, qual = c.target.partition(":")
        try:
            mod = self.world.load(modname)
        except ModuleNotFoundError:
            return
        parts = qual.split(".")
        owner = mod
        try:
            for p in parts[:-1]:
                owner = getattr(owner, p)
            raw = owner.__dict__[parts[-1]]
        except (AttributeError, KeyError):
            return
        k = self

        def wrapper(*a, **kw):
            k.contract_uses[c.name] = k.contract_uses.get(c.name, 0) + 1
            was, k.in_code = k.in_code, False
            try:
                return c.spec(k, *a, **kw)
            except TypeError as e:
                raise Unsupported("contract %s applied to an unexpected signature: %s" % (c.name, e))
            finally:
                k.in_code = was
        wrapper.__name__ = parts[-1]
        new = staticmethod(wrapper) if isinstance(raw, staticmethod) else wrapper
        setattr(owner, parts[-1], new)
        if isinstance(owner, types.ModuleType):
            for m in list(self.world.modules.values()):
                for n, v in list(m.__dict__.items()):
                    if v is raw:
                        m.__dict__[n] = wrapper

    def check_time(self):
        if time.time() > self.t_end:
            raise Undecided("time budget exhausted")

    # ---- hooks
    def decide(self, c):
        self.check_time()
        hook, T.Sym.on_domain = T.Sym.on_domain, None
        try:
            i = len(self.taken)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                v = self.quick(c)
                if v is None:
                    nc = T.bnot(c)
                    r1, _ = self.smt.check(self.path + [c], timeout=2000)
                    if r1 == "unsat":
                        v = False
                    else:
                        r2, _ = self.smt.check(self.path + [nc], timeout=2000)
                        if r2 == "unsat":
                            v = True
                        else:
                            self.pending.append(self.taken + [False])
                            v = True
            self.taken.append(v)
            self.decided.add(len(self.path))
            self.path.append(c if v else T.bnot(c))
            return v
        finally:
            T.Sym.on_domain = hook

    def choose(self):
        """both alternatives are explored (not a condition on the input)"""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.pending.append(self.taken + [False])
            v = True
        self.taken.append(v)
        return v

    def quick(self, c):
        if c.rel in ("==", "!=", "<", "<="):
            try:
                f = self.alg.nf(c.a)
            except (TooBig, Unsupported, ZeroDivisionError, T.EvalError):
                return None
            if not f.num:
                return c.rel in ("==", "<=")
            if not f.fac and set(f.num) == {0}:
                v = Fraction(f.num[0], f.den)
                return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0}[c.rel]
        return None

    def domain(self, kind, t):
        if not self.in_code:
            return
        key = (kind, t.id)
        if key not in self.domains:
            self.domains[key] = (kind, t, len(self.path))

    # ---- declarations
    def _declare(self, name, kind, sample):
        if kind == "unit":
            akind = "nonneg"
        else:
            akind = kind
        self.kinds[name] = akind
        v = T.var(name)
        self.decls.append((name, sample or default_sampler(kind)))
        if kind == "unit":
            self.path.append(T.lb(v <= 1))
        elif kind == "polar":
            pass
        self.alg.nf(v)
        return v

    def real(self, name, kind="real", sample=None):
        return self._declare(name, kind, sample)

    def pos(self, name, sample=None):
        return self._declare(name, "pos", sample)

    def polar(self, name):
        return self._declare(name, "polar", None)

    def azimuth(self, name):
        return self._declare(name, "azimuth", None)

    def fun(self, name, nargs):
        def f(*args):
            assert len(args) == nargs
            return T.app(name, [T.lift_or_fail(npshim.exact(a)) for a in args])
        return f

    def assume(self, c):
        if isinstance(c, (bool, _np.bool_)):
            if not c:
                raise Infeasible()
            return
        c = T.lb(c)
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        self.path.append(c)

    def either(self, *cs):
        r = T.FALSE
        for c in cs:
            r = T.bor(r, T.lb(c))
        return r

    # ---- execution of code
    def get(self, dotted):
        return self.world.get(dotted)

    def mod(self, name):
        return self.world.load(name)

    def raw(self, f, *a, **kw):
        was, self.in_code = self.in_code, True
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                return f(*a, **kw)
        finally:
            self.in_code = was
            self.warned = [x.category.__name__ for x in w]

    def call(self, f, *a, **kw):
        """call the code under verification; an exception is an obligation failure"""
        mut = kw.pop("_mutates", False)
        before = [(x, flatten(x)) for x in a if isinstance(x, (_np.ndarray, list))]
        try:
            r = self.raw(f, *a, **kw)
        except (Infeasible, Undecided, Unsupported, TooBig, Reject, Mismatch):
            raise
        except RecursionError as e:
            raise Unsupported("recursion")
        except Exception as e:
            self.fail_path("no exception from %s" % getattr(f, "__qualname__", f), "raised %s: %s" % (type(e).__name__, e),
                           traceback.format_exc())
            raise Mismatch("exception", repr(e), "no exception")
        if not mut:
            for x, old in before:
                new = flatten(x)
                if len(new) != len(old):
                    self.fail_path("frame: argument of %s unchanged" % getattr(f, "__qualname__", f), "argument size changed")
                    continue
                for (p, v), (_, w) in zip(new, old):
                    if v is not w and T.lift(v) is not T.lift(w):
                        self.equal("frame: argument%s of %s unchanged" % (p, getattr(f, "__name__", f)), v, w)
        return r

    def raises(self, label, exc, f, *a, **kw):
        name = exc if isinstance(exc, str) else exc.__name__
        try:
            self.raw(f, *a, **kw)
        except (Infeasible, Undecided, Unsupported, TooBig):
            raise
        except Exception as e:
            ok = any(c.__name__ == name for c in type(e).__mro__)
            if ok:
                self.obligations.append(Obligation(label, "raises", "proved", "path"))
                return e
            self.fail_path(label, "raised %s instead of %s" % (type(e).__name__, name))
            return e
        self.fail_path(label, "no exception raised, expected %s" % name)
        return None

    # ---- obligations
    def fail_path(self, label, note, tb=""):
        """the current path itself violates the contract: look for an input reaching it"""
        env = self.sample_path()
        self.obligations.append(Obligation(label, "path", "refuted" if env is not None else "unknown", "path", 0, note + ("\n" + tb if tb else ""), env))

    def equal(self, label, got, want, tol=None, scale=None):
        if shape_of(got) != shape_of(want):
            self.fail_path(label, "shape %s instead of %s" % (shape_of(got), shape_of(want)))
            return
        g, w = flatten(got), flatten(want)
        for (p, a), (_, b) in zip(g, w):
            self._eq1(label + p, a, b)

    def _eq1(self, label, a, b):
        t0 = time.time()
        if npshim.is_q(a) or npshim.is_q(b):
            if not (npshim.is_q(a) and npshim.is_q(b)):
                self.fail_path(label, "quantity expected/unexpected: %r vs %r" % (a, b))
                return
            if a.unit.dims != b.unit.dims:
                self.fail_path(label, "unit %s instead of %s" % (a.unit, b.unit))
                return
            a, b = a._si(), b._si()
            if isinstance(a, _np.ndarray):
                self.equal(label, a, b)
                return
        if isinstance(a, SymBool):
            a = bool(a)
        la, lb_ = T.lift(a), T.lift(b)
        if la is None or lb_ is None:
            ok = a == b if not (la is None) ^ (lb_ is None) else False
            if ok:
                self.obligations.append(Obligation(label, "equal", "proved", "identical"))
            else:
                self.fail_path(label, "%r instead of %r" % (a, b))
            return
        hook, T.Sym.on_domain = T.Sym.on_domain, None
        try:
            d = T.add(la, T.neg(lb_))
            if d is T.ZERO:
                self.obligations.append(Obligation(label, "equal", "proved", "identical", time.time() - t0))
                return
            d = self.use_equalities(d)
            if d is T.ZERO:
                self.obligations.append(Obligation(label, "equal", "proved", "path equality", time.time() - t0))
                return
            env = self.refute(d)
            if env is not None:
                self.obligations.append(Obligation(label, "equal", "refuted", "evaluation", time.time() - t0, "", env))
                return
            self.check_time()
            try:
                if self.alg.zero(d):
                    self.obligations.append(Obligation(label, "equal", "proved", "normal-form", time.time() - t0))
                    return
                note = "normal form not zero"
            except TooBig:
                note = "normal form too large"
            except (Unsupported, ZeroDivisionError, T.EvalError) as e:
                note = "normal form: %s" % e
            r, m = self.smt.check(self.path + [SymBool("!=", d)], timeout=8000)
            if r == "unsat":
                self.obligations.append(Obligation(label, "equal", "proved", "z3", time.time() - t0))
                return
            self.obligations.append(Obligation(label, "equal", "unknown", "z3:" + r, time.time() - t0, note))
        finally:
            T.Sym.on_domain = hook

    def use_equalities(self, d):
        """rewrite d with the path's equations of the form variable = constant"""
        m = {}
        for c in self.path:
            if not isinstance(c, SymBool) or c.rel != "==":
                continue
            try:
                f = self.alg.nf(c.a)
            except (TooBig, Unsupported, ZeroDivisionError, T.EvalError):
                continue
            if f.fac or not 1 <= len(f.num) <= 2:
                continue
            mons = [x for x in f.num if x]
            if len(mons) != 1:
                continue
            from .alg import exps
            e = exps(mons[0])
            if len(e) == 1 and list(e.values()) == [1]:
                a = self.alg.atoms[list(e)[0]]
                if a.kind == "var" and a.name != "pi":
                    m[T.var(a.name)] = T.const(Fraction(-f.num.get(0, 0), f.num[mons[0]]))
        if not m:
            return d
        try:
            return T.subst(d, m)
        except (ZeroDivisionError, T.EvalError):
            return d

    def true(self, label, c):
        t0 = time.time()
        if isinstance(c, (bool, _np.bool_)):
            if c:
                self.obligations.append(Obligation(label, "true", "proved", "path"))
            else:
                self.fail_path(label, "condition is false")
            return
        c = T.lb(c)
        if c is T.TRUE:
            self.obligations.append(Obligation(label, "true", "proved", "path"))
            return
        if c is T.FALSE:
            self.fail_path(label, "condition is false")
            return
        hook, T.Sym.on_domain = T.Sym.on_domain, None
        try:
            nc = T.bnot(c)
            env = self.sample_path([nc], tries=40, z3=False)
            if env is not None:
                self.obligations.append(Obligation(label, "true", "refuted", "evaluation", time.time() - t0, "", env))
                return
            r, m = self.smt.check(self.path + [nc], timeout=10000, want_model=True)
            if r == "unsat":
                self.obligations.append(Obligation(label, "true", "proved", "z3", time.time() - t0))
                return
            env = self.complete(m, [nc]) if m else None
            self.obligations.append(Obligation(label, "true", "refuted" if env else "unknown", "z3:" + r, time.time() - t0, "", env))
        finally:
            T.Sym.on_domain = hook

    def cover(self, label="cover"):
        """vacuity guard: the current path condition is satisfiable"""
        env = self.sample_path()
        self.obligations.append(Obligation(label, "cover", "proved" if env is not None else "unknown", "witness", 0, "", env))

    def finish_path(self):
        t0 = time.time()
        for kind, t, n in self.domains.values():
            self.check_time()
            self.discharge_domain(kind, t, self.path)
        if not self.witnessed:
            self.witnessed = self.sample_path() is not None

    def discharge_domain(self, kind, t, path):
        t0 = time.time()
        label = "defined: %s %s" % (T.show(t, 4)[:80], {"nonzero": "!= 0", "positive": "> 0", "nonneg": ">= 0", "unit": "in [-1,1]"}[kind])
        hook, T.Sym.on_domain = T.Sym.on_domain, None
        try:
            try:
                f = self.alg.nf(t)
            except (TooBig, Unsupported, ZeroDivisionError, T.EvalError) as e:
                self.obligations.append(Obligation(label, "domain", "unknown", str(e), time.time() - t0))
                return
            bad = {"nonzero": SymBool("==", t), "positive": SymBool("<=", t), "nonneg": SymBool("<", t),
                   "unit": None}[kind]
            if kind == "unit":
                bad = T.bor(T.lb(t > 1), T.lb(t < -1))
            if kind in ("nonzero",) and f.num:
                # factor by factor
                g, fac = self.alg.split_poly(f.num)
                ok = True
                for k in fac:
                    p = self.alg.facs[k]
                    if not self.nonzero_poly(p, path):
                        ok = False
                        break
                if ok:
                    self.obligations.append(Obligation(label, "domain", "proved", "z3", time.time() - t0))
                    return
            elif kind in ("nonneg", "positive") and f.num:
                s = self.alg.sign_frac(f)
                if s == 1 and (kind == "nonneg" or all(self.nonzero_poly(self.alg.facs[k], path) for k in self.alg.split_poly(f.num)[1])):
                    self.obligations.append(Obligation(label, "domain", "proved", "sign", time.time() - t0))
                    return
            if not f.num and kind == "nonneg":
                self.obligations.append(Obligation(label, "domain", "proved", "zero", time.time() - t0))
                return
            r, m = self.smt.check(path + [bad], timeout=5000, want_model=True)
            if r == "unsat":
                self.obligations.append(Obligation(label, "domain", "proved", "z3", time.time() - t0))
                return
            env = self.complete(m, [bad], slack=True) if m else None
            self.obligations.append(Obligation(label, "domain", "refuted" if env else "unknown", "z3:" + r, time.time() - t0, "", env))
        finally:
            T.Sym.on_domain = hook

    def nonzero_poly(self, p, path):
        key = ("nz", tuple(sorted(p.items())), len(path))
        memo = self.alg.fl_memo
        if key in memo:
            return memo[key]
        ok = False
        if len(p) == 1:
            (m, c), = p.items()
            from .alg import exps
            ok = all(self.strict(i) for i in exps(m))
        if not ok:
            smt = self.smt
            r, _ = smt.check(path, [lambda u: smt.poly(p, u) == 0], 3000)
            ok = r == "unsat"
        memo[key] = ok
        return ok

    def strict(self, i):
        a = self.alg.atoms[i]
        if a.kind == "var":
            return a.name == "pi" or self.kinds.get(a.name) in ("pos", "neg", "polar")
        if a.kind == "exp":
            return True
        if a.kind == "sin":
            return a.sign == 1
        return False

    # ---- numeric side
    def base_env(self):
        return {k: _mp.mpf(v) for k, v in unitshim.CONST_VALUES.items()}

    def draw(self, rng, fixed=None):
        env = self.base_env()
        fl = dict(unitshim.CONST_VALUES)
        for name, s in self.decls:
            v = fixed[name] if fixed and name in fixed else s(rng, fl)
            fl[name] = float(v)
            env[name] = _mp.mpf(fl[name])
        return env, fl

    def holds(self, c, env, memo):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c.rel == "and":
            return self.holds(c.a, env, memo) and self.holds(c.b, env, memo)
        if c.rel == "or":
            return self.holds(c.a, env, memo) or self.holds(c.b, env, memo)
        v = T.evaluate(c.a, env, memo)
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[c.rel]

    def kinds_ok(self, fl):
        for name, _ in self.decls:
            k = self.kinds[name]
            v = fl[name]
            if k == "pos" and not v > 0 or k == "nonneg" and v < 0 or k == "neg" and not v < 0:
                return False
            if k == "polar" and not (0 < v < math.pi) or k == "azimuth" and not (-math.pi < v <= math.pi):
                return False
        return True

    def points(self, extra=(), tries=60, want=3):
        """inputs satisfying the path condition (and extra)"""
        out = []
        with _mp.workdps(40):
            for _ in range(tries):
                env, fl = self.draw(self.rng)
                memo = {}
                try:
                    if all(self.holds(c, env, memo) for c in list(self.path) + list(extra)):
                        out.append((env, fl, memo))
                        if len(out) >= want:
                            break
                except T.EvalError:
                    continue
        return out

    def refute(self, d):
        """a point of the path where the term d is visibly non-zero"""
        with _mp.workdps(40):
            pts = self.cached_points()
            for env, fl, memo in pts:
                try:
                    v = T.evaluate(d, env, memo)
                    # magnitude of the two sides
                    s = max([abs(T.evaluate(a, env, memo)) for a in d.args if isinstance(a, Sym)] or [abs(v)])
                except T.EvalError:
                    continue
                if abs(v) > _mp.mpf(10) ** -25 * s:
                    # a true zero shrinks with the working precision
                    with _mp.workdps(90):
                        try:
                            v2 = T.evaluate(d, env, {})
                        except T.EvalError:
                            continue
                        if abs(v2) > abs(v) / 2:
                            return fl
        return None

    def cached_points(self):
        key = (len(self.path), len(self.decls))
        c = getattr(self, "_pts", None)
        if c is None or c[0] != key or c[1] is not self.alg:
            pts = self.points(tries=150, want=4)
            if not pts:
                env = self.sample_path(tries=0)
                if env is not None:
                    e, fl = self.draw(self.rng, env)
                    pts = [(e, fl, {})]
            self._pts = (key, self.alg, pts)
        return self._pts[2]

    def sample_path(self, extra=(), tries=150, z3=True):
        for env, fl, memo in self.points(extra, tries, 1):
            return fl
        if not z3:
            return None
        r, m = self.smt.check(self.path + list(extra), timeout=3000, want_model=True)
        if r == "sat" and m is not None:
            return self.complete(m, list(extra), slack=True)
        return None

    def complete(self, model, extra, slack=False):
        """turn a solver model into an input; conditions are re-checked numerically (equalities up to rounding)"""
        rng = random.Random(self.seed)
        with _mp.workdps(40):
            fixed = {n: model[n] for n, _ in self.decls if n in model}
            for c, v in unitshim.CONST_VALUES.items():
                pass
            for attempt in range(5):
                env, fl = self.draw(rng, fixed)
                if not self.kinds_ok(fl):
                    continue
                memo = {}
                try:
                    ok = all(self.near(c, env, memo) for c in list(self.path) + list(extra))
                except T.EvalError:
                    ok = slack
                if ok:
                    return fl
        return None

    def near(self, c, env, memo):
        if c.rel in ("and",):
            return self.near(c.a, env, memo) and self.near(c.b, env, memo)
        if c.rel == "or":
            return self.near(c.a, env, memo) or self.near(c.b, env, memo)
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        v = T.evaluate(c.a, env, memo)
        s = max([abs(T.evaluate(a, env, memo)) for a in c.a.args if isinstance(a, Sym)] or [_mp.mpf(1)])
        tol = s * _mp.mpf(10) ** -12
        if c.rel == "<":
            return v < tol
        if c.rel == "<=":
            return v <= tol
        if c.rel == "==":
            return abs(v) <= tol
        return abs(v) > tol

    # ---- numpy-like helpers usable in specifications
    def array(self, x):
        return npshim.arr(x)

    def sin(self, x):
        return self.np.sin(x)

    def cos(self, x):
        return self.np.cos(x)

    def sqrt(self, x):
        return self.np.sqrt(x)

    def exp(self, x):
        return self.np.exp(x)

    def q(self, v, unit):
        return self.u.Quantity(v, unitshim.as_unit(unit))

    def anyunit(self, v, unit, name):
        """the SI value v of dimension `unit`, expressed in an arbitrary compatible unit"""
        base = unitshim.as_unit(unit)
        kap = self._declare("kappa_" + name, "pos", lambda rng, env: 10 ** rng.uniform(-3, 3))
        un = unitshim.Unit(base.scale * kap, base.dims, "any-" + name)
        return self.u.Quantity(T.div(npshim.exact(v), un.scale) if True else None, un)

    def diff(self, t, x):
        return T.diff(T.lift_or_fail(npshim.exact(t)), x)

    @property
    def c(self):
        return unitshim.C

    @property
    def G(self):
        return unitshim.G

    @property
    def ke(self):
        return T.ONE / (4 * T.PI * unitshim.EPS0)

    @property
    def pi(self):
        return T.PI


# ============================================================================================ concrete
_real_world = None


def real_world():
    global _real_world
    if _real_world is None:
        _real_world = loader.World({}, sym=False)
    return _real_world


def innermost(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename


def signature_changed(e, f):
    """the call itself was refused: a private helper with another parameter list is not a violation"""
    n = getattr(f, "__name__", "")
    return isinstance(e, TypeError) and n.startswith("_") and not n.startswith("__") and innermost(e) == __file__


def misshapen(e):
    """the harness could not read a result it is entitled to (missing public attribute, index, entry):
    None, or what was missing"""
    if not isinstance(e, (AttributeError, IndexError, KeyError, TypeError, ValueError)):
        return None
    if os.path.dirname(innermost(e)) != os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"):
        return None
    if isinstance(e, AttributeError) and (getattr(e, "name", None) or "_").startswith("_"):
        return None
    if isinstance(e, TypeError) and ("argument" in str(e) or "not callable" in str(e)):
        return None
    return "%s: %s" % (type(e).__name__, e)


def raised_by_code(e):
    """an exception that came out of the package's code outside k.call (a property, an operator): what was raised, or None"""
    if isinstance(e, AttributeError) and (getattr(e, "name", None) or "_").startswith("_"):
        return None             # a private attribute of an object the harness has built
    src = os.path.join(loader.SRC, "einsteinpy") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return "raised %s: %s" % (type(e).__name__, e)
        tb = tb.tb_next
    return None


class ConK:
    sym = False
    TOL = 1e-6

    def __init__(self, env=None, rng=None, world=None, perturb=0.0):
        self.env = dict(env) if env else {}
        self.given = env is not None
        self.rng = rng or random.Random(1)
        self.world = world or real_world()
        self.np = _np
        import astropy.units as U
        self.u = U
        self.values = {}
        self.fl = dict(unitshim.CONST_VALUES)
        self.checked = 0
        self.perturb = perturb
        self.failures = []
        self.log = []
        self.ghost = {}

    def _declare(self, name, kind, sample):
        if name in self.env:
            v = self.env[name]
        else:
            v = (sample or default_sampler(kind))(self.rng, self.fl)
        v = float(v)
        self.values[name] = v
        if self.perturb and kind != "unit":
            v = v * (1 + self.perturb * random.Random('%s/%r' % (name, self.perturb)).uniform(-1, 1))
        self.fl[name] = v
        ok = {"real": True, "pos": v > 0, "nonneg": v >= 0, "neg": v < 0, "polar": 0 < v < math.pi,
              "azimuth": -math.pi < v <= math.pi, "unit": 0 <= v <= 1}[kind]
        if not ok or not math.isfinite(v):
            raise Reject()
        return _np.float64(v)

    def real(self, name, kind="real", sample=None):
        return self._declare(name, kind, sample)

    def pos(self, name, sample=None):
        return self._declare(name, "pos", sample)

    def polar(self, name):
        return self._declare(name, "polar", None)

    def azimuth(self, name):
        return self._declare(name, "azimuth", None)

    def fun(self, name, nargs):
        def f(*args):
            return _happ_float(name, args)
        return f

    def assume(self, c):
        if not bool(c):
            raise Reject()

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def get(self, dotted):
        return self.world.get(dotted)

    def mod(self, name):
        return self.world.load(name)

    def raw(self, f, *a, **kw):
        with warnings.catch_warnings(record=True) as w, _np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                return f(*a, **kw)
            finally:
                self.warned = [x.category.__name__ for x in w]

    def call(self, f, *a, **kw):
        mut = kw.pop("_mutates", False)
        before = [(x, [v for _, v in flatten(x)]) for x in a if isinstance(x, (_np.ndarray, list))]
        try:
            r = self.raw(f, *a, **kw)
        except Reject:
            raise
        except Exception as e:
            if signature_changed(e, f) or isinstance(e, Unsupported):
                raise
            raise Mismatch("no exception from %s" % getattr(f, "__qualname__", f), "raised %s: %s" % (type(e).__name__, e), "a result")
        if not mut:
            for x, old in before:
                new = [v for _, v in flatten(x)]
                if len(new) != len(old) or any(not (v is w or v == w or (v != v and w != w)) for v, w in zip(new, old)):
                    raise Mismatch("frame: argument of %s unchanged" % getattr(f, "__name__", f), str(new)[:300], str(old)[:300])
        return r

    def raises(self, label, exc, f, *a, **kw):
        name = exc if isinstance(exc, str) else exc.__name__
        try:
            self.raw(f, *a, **kw)
        except Reject:
            raise
        except Exception as e:
            if any(c.__name__ == name for c in type(e).__mro__):
                self.checked += 1
                return e
            raise Mismatch(label, "raised %s: %s" % (type(e).__name__, e), name)
        raise Mismatch(label, "no exception", name)

    def equal(self, label, got, want, tol=None, scale=None):
        tol = tol or self.TOL
        if shape_of(got) != shape_of(want):
            raise Mismatch(label, "shape %s" % (shape_of(got),), "shape %s" % (shape_of(want),))
        g, w = flatten(got), flatten(want)
        gs, ws = [], []
        for (p, a), (_, b) in zip(g, w):
            ua, ub = getattr(a, "unit", None), getattr(b, "unit", None)
            if (ua is None) != (ub is None):
                raise Mismatch(label + p, repr(a), repr(b))
            if ua is not None:
                try:
                    a, b = a.si.value if ua.physical_type == ub.physical_type else None, b.si.value
                except Exception:
                    a = None
                if a is None:
                    raise Mismatch(label + p, "unit %s" % ua, "unit %s" % ub)
                if getattr(a, "shape", ()):
                    self.equal(label + p, a, b, tol, scale)
                    continue
            gs.append((label + p, a))
            ws.append(b)
        nums = [abs(float(b)) for b in ws if isinstance(b, (int, float, _np.number)) and not isinstance(b, bool) and math.isfinite(float(b))]
        sc = max(nums, default=0.0) if scale is None else float(scale)
        for (l, a), b in zip(gs, ws):
            self.checked += 1
            if isinstance(a, (int, float, _np.number)) and isinstance(b, (int, float, _np.number)):
                a, b = float(a), float(b)
                if b != b:
                    raise Reject()
                if a == b:
                    continue
                if not abs(a - b) <= tol * max(abs(a), abs(b)) + (1e-9 * sc if len(ws) > 1 or scale is not None else 1e-300):
                    raise Mismatch(l, a, b, abs(a - b) if a == a else None)
            elif isinstance(a, complex) or isinstance(b, complex):
                if not abs(a - b) <= tol * abs(b):
                    raise Mismatch(l, a, b)
            elif type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)) or a != b:
                raise Mismatch(l, repr(a), repr(b))

    def true(self, label, c):
        self.checked += 1
        if not bool(c):
            raise Mismatch(label, "false", "true")

    def cover(self, label="cover"):
        pass

    @property
    def S(self):
        import sympy
        return sympy

    def array(self, x):
        return _np.array(x, dtype=float)

    def sin(self, x):
        return _np.sin(x)

    def cos(self, x):
        return _np.cos(x)

    def sqrt(self, x):
        return _np.sqrt(x)

    def exp(self, x):
        return _np.exp(x)

    def q(self, v, unit):
        return v * self.u.Unit(unit)

    def anyunit(self, v, unit, name):
        kap = self._declare("kappa_" + name, "pos", lambda rng, env: 10 ** rng.uniform(-3, 3))
        base = self.u.Unit(unit)
        un = self.u.def_unit("any" + name, float(kap) * base)
        return (v * base).to(un)

    def diff(self, t, x):
        raise Reject()

    @property
    def c(self):
        return unitshim.CONST_VALUES["c"]

    @property
    def G(self):
        return unitshim.CONST_VALUES["G"]

    @property
    def ke(self):
        return 1 / (4 * math.pi * unitshim.CONST_VALUES["eps0"])

    @property
    def pi(self):
        return math.pi


def _happ_float(name, args, ds=()):
    amp, w, ph, off = T._happ(name, len(args))
    z = float(ph)
    for i, a in enumerate(args):
        z = z + float(w[i]) * a
    f = getattr(type(z), "sin", None)
    if isinstance(z, (int, float, _np.number)):
        return float(amp) * _np.sin(z) + float(off)
    return float(amp) * _np.sin(z) + float(off)
