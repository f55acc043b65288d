"""Hash-consed real-analytic terms: the values symbolic execution computes with."""
import math
from fractions import Fraction
import numbers
import numpy as _np

_table = {}
_counter = [0]


class Unsupported(Exception):
    """the engine cannot represent this construct (never a verdict)"""


def simplest(x):
    """simplest rational that rounds to the double x"""
    x = float(x)
    if not math.isfinite(x):
        raise Unsupported("non-finite constant")
    if x == int(x) and abs(x) < 1e17:
        return Fraction(int(x))
    if abs(x) >= 1e17:
        return Fraction(repr(x))
    exact = Fraction(x)
    d = 1
    while d < 10 ** 20:
        f = exact.limit_denominator(d)
        if float(f) == x:
            return f
        d *= 10
    return exact


class Sym:
    __slots__ = ("op", "args", "id", "__weakref__")
    # hooks set by ctx
    decide = None
    on_domain = None

    def __hash__(self):
        return self.id

    # ----- arithmetic
    def __add__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, o)

    def __radd__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, s)

    def __sub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, neg(o))

    def __rsub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(s))

    def __mul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(s, o)

    def __rmul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, s)

    def __truediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else div(s, o)

    def __rtruediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, s)

    def __pow__(s, o):
        o = lift(o)
        return NotImplemented if o is None else pow_(s, o)

    def __rpow__(s, o):
        o = lift(o)
        return NotImplemented if o is None else pow_(o, s)

    def __neg__(s):
        return neg(s)

    def __pos__(s):
        return s

    def __abs__(s):
        if s.op == "const":
            return const(abs(s.args[0]))
        return s if bool(s >= 0) else neg(s)

    # ----- comparisons
    def _cmp(s, o, rel):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return mkbool(rel, add(s, neg(o2)))

    def __lt__(s, o):
        return s._cmp(o, "<")

    def __le__(s, o):
        return s._cmp(o, "<=")

    def __gt__(s, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else mkbool("<", add(o2, neg(s)))

    def __ge__(s, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else mkbool("<=", add(o2, neg(s)))

    def __eq__(s, o):
        if s is o:
            return True
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return mkbool("==", add(s, neg(o2)))

    def __ne__(s, o):
        if s is o:
            return False
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return mkbool("!=", add(s, neg(o2)))

    def __bool__(s):
        return bool(s != 0)

    # ----- conversions
    def __float__(s):
        if s.op == "const":
            return float(s.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(s):
        if s.op == "const":
            return int(s.args[0])
        raise Unsupported("int() of a symbolic value")

    def __index__(s):
        if s.op == "const" and s.args[0].denominator == 1:
            return int(s.args[0])
        raise Unsupported("index with a symbolic value")

    # ----- numpy object-dtype hooks
    def sin(s):
        return fn("sin", s)

    def cos(s):
        return fn("cos", s)

    def tan(s):
        return div(fn("sin", s), fn("cos", s))

    def exp(s):
        return fn("exp", s)

    def log(s):
        return fn("log", s)

    def sqrt(s):
        return sqrt(s)

    def cbrt(s):
        return pow_(s, const(Fraction(1, 3)))

    def square(s):
        return mul(s, s)

    def reciprocal(s):
        return div(ONE, s)

    def absolute(s):
        return abs(s)

    def fabs(s):
        return abs(s)

    def arccos(s):
        return fn("acos", s)

    def arcsin(s):
        return fn("asin", s)

    def arctan(s):
        return fn("atan2", s, ONE)

    def arctan2(s, x):
        return fn("atan2", s, lift_or_fail(x))

    def hypot(s, x):
        x = lift_or_fail(x)
        return sqrt(add(mul(s, s), mul(x, x)))

    def sinh(s):
        e = fn("exp", s)
        return div(add(e, neg(div(ONE, e))), const(2))

    def cosh(s):
        e = fn("exp", s)
        return div(add(e, div(ONE, e)), const(2))

    def conjugate(s):
        return s

    def isfinite(s):
        return True

    def isnan(s):
        return False

    def isinf(s):
        return False

    def deg2rad(s):
        return s * PI / 180

    radians = deg2rad

    def rad2deg(s):
        return s * 180 / PI

    degrees = rad2deg

    def item(s):
        return s

    @property
    def real(s):
        return s

    @property
    def imag(s):
        return ZERO

    @property
    def T(s):
        return s

    def copy(s):
        return s

    def __copy__(s):
        return s

    def __deepcopy__(s, memo):
        return s

    def __repr__(s):
        return show(s)

    def __format__(s, spec):
        return show(s)


def _mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Sym) else ("k", a) for a in args)
    n = _table.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        _counter[0] += 1
        n.id = _counter[0]
        _table[key] = n
    return n


def const(v):
    return _mk("const", Fraction(v))


ZERO = const(0)
ONE = const(1)


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, bool) or isinstance(o, _np.bool_):
        return const(int(o))
    if isinstance(o, (int, Fraction)):
        return const(o)
    if isinstance(o, (float, _np.floating)):
        return const(simplest(o))
    if isinstance(o, _np.integer):
        return const(int(o))
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o.item())
    if isinstance(o, SymBool):
        return const(int(bool(o)))
    return None


def lift_or_fail(o):
    r = lift(o)
    if r is None:
        raise Unsupported("cannot represent %r" % type(o))
    return r


def var(name):
    return _mk("var", name)


PI = var("pi")
EULER = _mk("fn", "exp", ONE)


def add(a, b):
    if a.op == "const":
        if b.op == "const":
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "const" and b.args[0] == 0:
        return a
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a:
        return ZERO
    return _mk("add", a, b)


def neg(a):
    if a.op == "const":
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", a)


def mul(a, b):
    if a.op == "const":
        if b.op == "const":
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
        if a.args[0] == -1:
            return neg(b)
    elif b.op == "const":
        return mul(b, a)
    return _mk("mul", a, b)


def div(a, b):
    if b.op == "const":
        if b.args[0] == 0:
            if Sym.on_domain is not None:
                Sym.on_domain("nonzero", b)
            raise ZeroDivisionError("division by zero")
        return mul(const(1 / b.args[0]), a)
    if Sym.on_domain is not None:
        Sym.on_domain("nonzero", b)
    if a.op == "const" and a.args[0] == 0:
        return ZERO
    return _mk("div", a, b)


def ipow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, ipow(a, -n))
    if n == 1:
        return a
    if a.op == "const":
        return const(a.args[0] ** n)
    return _mk("pow", a, n)


def pow_(a, b):
    if b.op == "const":
        e = b.args[0]
        if e.denominator == 1:
            return ipow(a, int(e))
        if e.denominator == 2:
            r = sqrt(a)
            return ipow(r, int(e.numerator))
        if Sym.on_domain is not None:
            Sym.on_domain("positive" if e < 0 else "nonneg", a)
        return _mk("rpow", a, e)
    if a is EULER:
        return fn("exp", b)
    if Sym.on_domain is not None:
        Sym.on_domain("positive", a)
    return _mk("gpow", a, b)


def sqrt(a):
    if a.op == "const":
        v = a.args[0]
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    if Sym.on_domain is not None:
        Sym.on_domain("nonneg", a)
    return _mk("fn", "sqrt", a)


def fn(name, *args):
    a = args[0]
    if name == "exp":
        if a.op == "const" and a.args[0] == 0:
            return ONE
    elif name in ("sin",) and a.op == "const" and a.args[0] == 0:
        return ZERO
    elif name == "cos" and a.op == "const" and a.args[0] == 0:
        return ONE
    elif name == "log":
        if Sym.on_domain is not None:
            Sym.on_domain("positive", a)
        if a.op == "const" and a.args[0] == 1:
            return ZERO
    elif name in ("acos", "asin"):
        if Sym.on_domain is not None:
            Sym.on_domain("unit", a)
    elif name == "atan2":
        pass
    return _mk("fn", name, *args)


def app(name, args, derivs=()):
    """opaque smooth function application; derivs = sorted tuple of argument positions differentiated"""
    return _mk("app", name, tuple(sorted(derivs)), *args)


def app_parts(n):
    return n.args[0], n.args[1], n.args[2:]


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("rel", "a", "b")

    def __init__(self, rel, a, b=None):
        self.rel, self.a, self.b = rel, a, b

    def __bool__(self):
        if Sym.decide is None:
            raise Unsupported("branch on a symbolic condition outside verification")
        return Sym.decide(self)

    def __and__(self, o):
        o = lb(o)
        return NotImplemented if o is None else band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = lb(o)
        return NotImplemented if o is None else bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        if self.rel in ("<", "<=", "==", "!="):
            return "%s %s 0" % (show(self.a), self.rel)
        if self.rel == "not":
            return "not(%r)" % (self.a,)
        return "(%r %s %r)" % (self.a, self.rel, self.b)


def lb(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, (bool, _np.bool_)):
        return TRUE if o else FALSE
    return None


def mkbool(rel, t):
    if t.op == "const":
        v = t.args[0]
        r = {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[rel]
        return TRUE if r else FALSE
    return SymBool(rel, t)


class _Const(SymBool):
    def __bool__(self):
        return self.rel == "true"


TRUE = _Const("true", ZERO)
FALSE = _Const("false", ZERO)


def band(a, b):
    if isinstance(a, _Const):
        return b if a else FALSE
    if isinstance(b, _Const):
        return a if b else FALSE
    return SymBool("and", a, b)


def bor(a, b):
    if isinstance(a, _Const):
        return TRUE if a else b
    if isinstance(b, _Const):
        return TRUE if b else a
    return SymBool("or", a, b)


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.rel == "<":
        return SymBool("<=", neg(c.a))
    if c.rel == "<=":
        return SymBool("<", neg(c.a))
    if c.rel == "==":
        return SymBool("!=", c.a)
    if c.rel == "!=":
        return SymBool("==", c.a)
    if c.rel == "and":
        return bor(bnot(c.a), bnot(c.b))
    if c.rel == "or":
        return band(bnot(c.a), bnot(c.b))
    raise Unsupported(c.rel)


# ------------------------------------------------------------------ differentiation
def diff(t, x, memo=None):
    """partial derivative of term t with respect to variable node x"""
    if memo is None:
        memo = {}
    hook = Sym.on_domain
    Sym.on_domain = None
    try:
        return _diff(t, x, memo)
    finally:
        Sym.on_domain = hook


def _diff(t, x, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == "const":
        r = ZERO
    elif op == "var":
        r = ONE if t is x else ZERO
    elif op == "add":
        r = add(_diff(t.args[0], x, memo), _diff(t.args[1], x, memo))
    elif op == "neg":
        r = neg(_diff(t.args[0], x, memo))
    elif op == "mul":
        a, b = t.args
        r = add(mul(_diff(a, x, memo), b), mul(a, _diff(b, x, memo)))
    elif op == "div":
        a, b = t.args
        da, db = _diff(a, x, memo), _diff(b, x, memo)
        if db is ZERO:
            r = div(da, b) if da is not ZERO else ZERO
        else:
            r = div(add(mul(da, b), neg(mul(a, db))), mul(b, b))
    elif op == "pow":
        a, n = t.args
        d = _diff(a, x, memo)
        r = ZERO if d is ZERO else mul(mul(const(n), ipow(a, n - 1)), d)
    elif op == "rpow":
        a, e = t.args
        d = _diff(a, x, memo)
        r = ZERO if d is ZERO else mul(mul(const(e), pow_(a, const(e - 1))), d)
    elif op == "gpow":
        a, b = t.args
        da, db = _diff(a, x, memo), _diff(b, x, memo)
        r = ZERO
        if da is not ZERO:
            r = add(r, mul(mul(b, pow_(a, add(b, const(-1)))), da))
        if db is not ZERO:
            r = add(r, mul(mul(t, fn("log", a)), db))
    elif op == "fn":
        name, a = t.args[0], t.args[1]
        d = _diff(a, x, memo)
        if name == "atan2":
            b = t.args[2]
            d2 = _diff(b, x, memo)
            if d is ZERO and d2 is ZERO:
                r = ZERO
            else:
                r = div(add(mul(b, d), neg(mul(a, d2))), add(mul(a, a), mul(b, b)))
        elif d is ZERO:
            r = ZERO
        elif name == "sin":
            r = mul(fn("cos", a), d)
        elif name == "cos":
            r = neg(mul(fn("sin", a), d))
        elif name == "exp":
            r = mul(t, d)
        elif name == "log":
            r = div(d, a)
        elif name == "sqrt":
            r = div(d, mul(const(2), t))
        elif name == "acos":
            r = neg(div(d, sqrt(add(ONE, neg(mul(a, a))))))
        elif name == "asin":
            r = div(d, sqrt(add(ONE, neg(mul(a, a)))))
        else:
            raise Unsupported("derivative of " + name)
    elif op == "app":
        name, ds, args = app_parts(t)
        r = ZERO
        for i, a in enumerate(args):
            d = _diff(a, x, memo)
            if d is not ZERO:
                r = add(r, mul(app(name, args, ds + (i,)), d))
    else:
        raise Unsupported("derivative of " + op)
    memo[t.id] = r
    return r


# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    """replace nodes (dict node -> term; the nodes are variables or opaque applications)"""
    if memo is None:
        memo = {}
    hook = Sym.on_domain
    Sym.on_domain = None
    try:
        return _subst(t, m, memo)
    finally:
        Sym.on_domain = hook


def _subst(t, m, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m.get(t, t)
    elif t.op == "const":
        r = t
    elif t.op == "app" and t in m:
        r = m[t]
    else:
        a = [_subst(x, m, memo) if isinstance(x, Sym) else x for x in t.args]
        if t.op == "add":
            r = add(*a)
        elif t.op == "neg":
            r = neg(*a)
        elif t.op == "mul":
            r = mul(*a)
        elif t.op == "div":
            r = div(*a)
        elif t.op == "pow":
            r = ipow(*a)
        elif t.op == "rpow":
            r = pow_(a[0], const(a[1]))
        elif t.op == "gpow":
            r = pow_(*a)
        elif t.op == "fn":
            r = sqrt(a[1]) if a[0] == "sqrt" else fn(*a)
        else:
            r = _mk(t.op, *a)
    memo[t.id] = r
    return r


def variables(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    stack = [t]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "var":
            acc.add(n)
        stack.extend(a for a in n.args if isinstance(a, Sym))
    return acc


# ------------------------------------------------------------------ numeric evaluation (mpmath)
import mpmath as _mp
import hashlib as _hl


def _happ(name, nargs):
    h = _hl.sha256(name.encode()).digest()
    w = [_mp.mpf(40 + h[i] % 97) / 100 for i in range(nargs)]
    return _mp.mpf(60 + h[20] % 91) / 50, w, _mp.mpf(h[21]) / 40, _mp.mpf(h[22] % 37) / 20


def happ_value(name, args, ds):
    """numeric interpretation of opaque functions: amp*sin(w.x+ph)+off (any smooth function is legitimate)"""
    amp, w, ph, off = _happ(name, len(args))
    z = ph
    scale = _mp.mpf(1)
    for i, a in enumerate(args):
        z += w[i] * a
    for i in ds:
        scale *= w[i]
    k = len(ds) % 4
    v = [_mp.sin, _mp.cos, lambda q: -_mp.sin(q), lambda q: -_mp.cos(q)][k](z)
    return amp * scale * v + (off if not ds else 0)


class EvalError(Exception):
    pass


def evaluate(t, env, memo=None):
    if memo is None:
        memo = {}
    # iterative post-order to avoid recursion limits
    stack = [t]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Sym) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[n.id] = _ev1(n, env, memo)
    return memo[t.id]


def _ev1(n, env, memo):
    op = n.op
    g = lambda a: memo[a.id]
    try:
        if op == "const":
            return _mp.mpf(n.args[0].numerator) / n.args[0].denominator
        if op == "var":
            if n.args[0] == "pi":
                return +_mp.pi
            return env[n.args[0]]
        if op == "add":
            return g(n.args[0]) + g(n.args[1])
        if op == "neg":
            return -g(n.args[0])
        if op == "mul":
            return g(n.args[0]) * g(n.args[1])
        if op == "div":
            return g(n.args[0]) / g(n.args[1])
        if op == "pow":
            return g(n.args[0]) ** n.args[1]
        if op == "rpow":
            b = g(n.args[0])
            if b < 0:
                raise EvalError("rpow")
            return _mp.power(b, _mp.mpf(n.args[1].numerator) / n.args[1].denominator)
        if op == "gpow":
            b = g(n.args[0])
            if b <= 0:
                raise EvalError("gpow")
            return _mp.power(b, g(n.args[1]))
        if op == "app":
            name, ds, args = app_parts(n)
            return happ_value(name, [g(a) for a in args], ds)
        name = n.args[0]
        a = g(n.args[1])
        if name == "sin":
            return _mp.sin(a)
        if name == "cos":
            return _mp.cos(a)
        if name == "exp":
            return _mp.exp(a)
        if name == "log":
            if a <= 0:
                raise EvalError("log")
            return _mp.log(a)
        if name == "sqrt":
            if a < 0:
                if a > -_mp.mpf(10) ** (-_mp.mp.dps + 8):
                    return _mp.mpf(0)
                raise EvalError("sqrt")
            return _mp.sqrt(a)
        if name == "acos":
            if abs(a) > 1:
                raise EvalError("acos")
            return _mp.acos(a)
        if name == "asin":
            if abs(a) > 1:
                raise EvalError("asin")
            return _mp.asin(a)
        if name == "atan2":
            return _mp.atan2(a, g(n.args[2]))
        if name == "trunc":
            return _mp.mpf(int(a))
    except ZeroDivisionError:
        raise EvalError("zero division")
    raise EvalError(op)


def show(t, depth=6):
    if t.op == "const":
        return str(t.args[0])
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) if isinstance(a, Sym) else str(a) for a in t.args]
    if t.op == "add":
        return "(%s + %s)" % tuple(s)
    if t.op == "neg":
        return "-%s" % s[0]
    if t.op == "mul":
        return "%s*%s" % tuple(s)
    if t.op == "div":
        return "%s/(%s)" % tuple(s)
    if t.op in ("pow", "rpow", "gpow"):
        return "(%s)**%s" % tuple(s)
    if t.op == "app":
        name, ds, args = app_parts(t)
        return "%s%s(%s)" % (name, "".join("_,%d" % d for d in ds), ", ".join(show(a, depth - 1) for a in args))
    return "%s(%s)" % (s[0], ", ".join(s[1:]))


numbers.Real.register(Sym)
