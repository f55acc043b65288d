"""Loop contracts.

A `while` loop whose condition is not decided on entry is verified by the Hoare rule instead of being unrolled:

  infer      one execution of the body from an arbitrary state finds, for every assigned variable, its change per iteration
             (constant change -> closed form v0 + i*d, the invariant; otherwise an opaque sequence v(i) defined by its recurrence);
  preserve   the body from the state of an arbitrary iteration i >= 0 in which the condition holds: the invariant is
             re-established for i+1 (obligation), every element appended to a list is recorded as a function of i, and the
             condition is eventually false (obligation);
  exit       the state after N iterations, where N is the first index at which the condition fails; a list that was appended to
             holds the elements of iterations 0, j and j+1 for an arbitrary j (and is empty or has one element for N = 0, 1).

The loop is located in the AST of the source being loaded; its text is not changed.  A loop the rule does not cover (break,
continue, return, branches on the state, mutation other than list.append) is left as it is and unrolled."""
import ast
import sys
from . import terms as T
from .terms import Sym, SymBool, Unsupported


class PathEnd(BaseException):
    """the obligations of this path are complete"""


class PathSkip(BaseException):
    """a path that carries no obligations"""


class _Unbound:
    """a name the loop body assigns before reading"""
    def _no(self, *a, **k):
        raise Unsupported("value of a loop-local name outside the loop body")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __call__ = __getitem__ = __len__ = __iter__ = __bool__ = __neg__ = __pow__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = _no
    __array__ = __float__ = _no


UNBOUND = _Unbound()


def _assigned(body):
    names = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.append(n.name)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)
    v = V()
    for s in body:
        v.visit(s)
    return names


def _plain(body):
    """no jump out of the loop, no generator, no scope declaration"""
    class V(ast.NodeVisitor):
        ok, depth = True, 0

        def no(self, n):
            self.ok = False
        visit_Return = visit_Yield = visit_YieldFrom = visit_Await = visit_Global = visit_Nonlocal = visit_Try = visit_With = no

        def jump(self, n):
            if not self.depth:
                self.ok = False
        visit_Break = visit_Continue = jump

        def loop(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_For = visit_While = loop

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_FunctionDef
    v = V()
    for s in body:
        v.visit(s)
    return v.ok


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.n, self.fun = module, 0, []

    def visit_FunctionDef(self, n):
        self.fun.append(n.name)
        self.generic_visit(n)
        self.fun.pop()
        return n

    def visit_ClassDef(self, n):
        self.fun.append(n.name)
        self.generic_visit(n)
        self.fun.pop()
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if not self.fun or n.orelse or not _plain(n.body):
            return n
        names = _assigned(n.body)
        lp = "__loop%d" % self.n
        self.n += 1
        loc = "%s:%s" % (self.module, ".".join(self.fun))
        src = ["%s = __loop__(%r, %r)" % (lp, loc, tuple(names)), "while True:\n pass"]
        pre, w = ast.parse("\n".join(src)).body
        unpack = ("(" + ", ".join(names) + ",) = " if names else "") + "%s.%s(locals())"
        head = ast.parse(unpack % (lp, "head")).body
        cond = ast.parse("__t = 0\nif %s.again(__t):\n continue\nif not %s.test(__t):\n break" % (lp, lp)).body
        cond[0].value = n.test
        tail = ast.parse("%s.tail(locals())" % lp).body
        w.body = head + cond + n.body + tail
        post = ast.parse(unpack % (lp, "leave")).body
        for s in [pre, w] + post:
            ast.copy_location(s, n)
        return [pre, w] + post


def lists_of(env):
    """list objects the body can reach by name: path -> list"""
    out, seen = {}, set()
    for name, v in env.items():
        if isinstance(v, list) and id(v) not in seen:
            seen.add(id(v))
            out[name] = v
        elif name == "self" and hasattr(v, "__dict__"):
            for a, x in vars(v).items():
                if isinstance(x, list) and id(x) not in seen:
                    seen.add(id(x))
                    out["self." + a] = x
    return out


def frozen_of(env):
    """everything else the body must leave alone (checked by identity)"""
    import numpy as np
    out = {}

    def put(name, v, depth):
        if isinstance(v, np.ndarray):
            out[name] = (id(v), tuple(id(x) for x in v.reshape(-1)) if v.dtype == object else v.tobytes())
        elif isinstance(v, dict):
            out[name] = (id(v), tuple((k, id(x)) for k, x in v.items()))
        elif depth and hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.startswith("einsteinpy"):
            for a, x in vars(v).items():
                out[name + "." + a] = id(x)
                put(name + "." + a, x, depth - 1)
    for name, v in env.items():
        put(name, v, 2)
    return out


class Loop:
    def __init__(self, k, loc, names):
        self.k, self.loc, self.names, self.mode = k, loc, names, "entry"

    # -- hooks called from the instrumented source, in this order
    def head(self, env):
        k = self.k
        if self.mode in ("entry", "native"):
            self.env0 = env
            return tuple(env.get(n, UNBOUND) for n in self.names)
        self.lists = lists_of(env)
        self.before = {p: list(v) for p, v in self.lists.items()}
        self.frozen = frozen_of({n: v for n, v in env.items() if n not in self.names})
        return self.state(env)

    def again(self, t):
        if self.mode == "entry":
            if isinstance(t, SymBool) and t is not T.TRUE and t is not T.FALSE:
                self.engage()
                return True
            self.mode = "native"
        return False

    def test(self, t):
        k = self.k
        if self.mode == "native":
            return bool(t)
        if not isinstance(t, SymBool):
            raise Unsupported("loop condition becomes concrete")
        if self.mode == "exit":
            k.assume(T.bnot(t))
            return False
        if self.mode == "preserve":
            self.termination(t)
            self.sum["test"] = (self.i, t)
        k.assume(t)
        self.pend = len(k.pending)
        return True

    def tail(self, env):
        k = self.k
        if self.mode == "native":
            return
        if len(k.pending) != self.pend:
            raise Unsupported("the loop body branches")
        if frozen_of({n: v for n, v in env.items() if n not in self.names}) != self.frozen:
            raise Unsupported("the loop body changes more than its variables and lists")
        new = {}
        for p, v in lists_of(env).items():
            old = self.before.get(p)
            if old is None or len(v) < len(old) or any(a is not b for a, b in zip(v, old)):
                raise Unsupported("the loop body changes a list other than by appending")
            new[p] = [T.lift_or_fail(x) for x in v[len(old):]]
        if self.mode == "infer":
            rec = {}
            for n in self.names:
                if self.v0[n] is None:
                    continue
                d = T.lift_or_fail(env[n]) - self.hav[n]
                const = all(self.zero(T.diff(d, w)) for w in self.hav.values())
                rec[n] = T.subst(d, {w: self.v0[o] for o, w in self.hav.items()}) if const else None
            k.loop_sums[self.key] = {"delta": rec}
            raise PathSkip()
        for n, d in self.sum["delta"].items():
            if d is not None:
                k.equal("loop invariant of %s preserved" % self.loc.split(".")[-1], env[n], self.v0[n] + (self.i + 1) * d)
        self.sum["next"] = {n: T.lift_or_fail(env[n]) for n in self.sum["delta"]}
        self.sum["new"] = new
        raise PathEnd()

    def leave(self, env):
        if self.mode in ("entry", "native"):
            return tuple(env.get(n, UNBOUND) for n in self.names)
        k, s = self.k, self.sum
        for p, items in s["new"].items():
            tgt = self.lists.get(p)
            if tgt is None:
                if items:
                    raise Unsupported("list not found at loop exit")
                continue
            for j in self.reps:
                tgt.extend(self.at(x, j) for x in items)
        k.loops.append({"loc": self.loc, "N": self.N, "reps": [x for x in self.reps], "start": self.v0})
        return tuple(self.cur.get(n, UNBOUND) for n in self.names)

    # -- the rule
    def engage(self):
        k = self.k
        n = sum(1 for x in k.loop_log if x == self.loc)
        k.loop_log.append(self.loc)
        self.id = "%s#%d" % (self.loc.split(".")[-1], n)
        self.key = (self.loc, n, tuple(k.taken))
        self.v0 = {}
        for x in self.names:
            v = self.env0.get(x)
            if x not in self.env0:
                self.v0[x] = None
            elif isinstance(v, (Sym, int, float)) and not isinstance(v, bool):
                self.v0[x] = T.lift_or_fail(v)
            else:
                raise Unsupported("loop variable %s is not a number" % x)
        if k.choose():
            self.mode = "infer"
        else:
            self.sum = k.loop_sums.get(self.key)
            if self.sum is None:
                raise Unsupported("loop summary missing")
            if k.choose():
                self.mode = "preserve"
            else:
                self.mode = "exit"
                if "new" not in self.sum:
                    raise Unsupported("loop body not summarised")
                self.count = 0 if k.choose() else 1 if k.choose() else 2

    def seq(self, n):
        return "%s@%s" % (n, self.id)

    def closed(self, n, i):
        d = self.sum["delta"][n]
        if d is not None:
            return self.v0[n] + i * d
        return T.app(self.seq(n), [i])

    def state(self, env):
        k = self.k
        if self.mode == "infer":
            self.hav = {n: k.real("any " + self.seq(n)) for n in self.names if self.v0[n] is not None}
            self.cur = dict(self.hav)
        elif self.mode == "preserve":
            self.i = k.real("i@" + self.id, "nonneg")
            if k.loop_hook:
                k.loop_hook(self.loc, self.id, self.i)
            self.cur = {n: self.closed(n, self.i) for n in self.names if self.v0[n] is not None}
        elif self.mode == "exit":
            zero = T.const(0)
            if self.count == 0:
                self.N, self.reps = zero, []
                self.cur = {n: v for n, v in self.v0.items() if v is not None}
            elif self.count == 1:
                self.N, self.reps = T.const(1), [zero]
                self.cur = {n: self.at(self.sum["next"][n], zero) for n in self.sum["next"]}
            else:
                self.N = k.real("N@" + self.id, "pos", sample=lambda rng, env: rng.choice([2, 3, 5, 20]))
                j = k.real("j@" + self.id, "nonneg", sample=lambda rng, env: rng.choice([0, 1, 2, 7]))
                k.assume(j + 2 <= self.N)
                self.reps = [zero, j, j + 1]
                if k.loop_hook:
                    for x in self.reps[1:]:
                        k.loop_hook(self.loc, self.id, x)
                self.cur = {n: self.closed(n, self.N) for n in self.sum["next"]}
            i, t = self.sum["test"]
            for x in self.reps + ([self.N - 1] if self.count == 2 else []):
                k.assume(T.mkbool(t.rel, self.at(t.a, x)) if t.rel in ("<", "<=", "!=", "==") else T.TRUE)
        return tuple(self.cur.get(n, UNBOUND) for n in self.names)

    def at(self, term, x):
        """a term of the arbitrary iteration, at iteration x (0 and j+1 are unfolded once)"""
        i = self.sum["test"][0]
        opaque = {n: T.app(self.seq(n), [i]) for n, d in self.sum["delta"].items() if d is None}
        if isinstance(x, Sym) and x.op == "const" and x.args[0] == 0:
            m = {a: self.v0[n] for n, a in opaque.items()}
        elif len(self.reps) == 3 and x is self.reps[2]:
            j = self.reps[1]
            m = {a: T.subst(self.sum["next"][n], {i: j, a: T.app(self.seq(n), [j]), **{b: T.app(self.seq(o), [j]) for o, b in opaque.items()}}) for n, a in opaque.items()}
        else:
            m = {a: T.app(self.seq(n), [x]) for n, a in opaque.items()}
        m[i] = x
        return T.subst(term, m)

    def termination(self, t):
        k = self.k
        if t.rel not in ("<", "<="):
            raise Unsupported("loop condition is not an inequality")
        d = T.diff(t.a, self.i)
        if not self.zero(T.diff(d, self.i)):
            raise Unsupported("loop condition is not affine in the iteration")
        k.true("loop of %s terminates" % self.loc.split(".")[-1], d > 0)

    def zero(self, t):
        t = T.lift_or_fail(t)
        if t.op == "const":
            return t.args[0] == 0
        hook, T.Sym.on_domain = T.Sym.on_domain, None
        try:
            return self.k.quick(T.mkbool("==", t)) is True
        finally:
            T.Sym.on_domain = hook
