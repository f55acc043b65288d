"""Contracts of the parts of SymPy that einsteinpy.symbolic uses (external, trusted).

An expression is the value it denotes: arithmetic and the named functions denote themselves, diff is the partial
derivative, simplify/expand/... return an expression with the same value, Matrix.inv is the matrix inverse,
tensorproduct / tensorcontraction / permutedims are defined index by index, lambdify evaluates, subs substitutes.
Structural equality of expressions (==, in) is decided only when it is determined by the values (two symbols,
two numbers, different values); for two expressions of equal value either answer is explored."""
import itertools
import types
from fractions import Fraction
import numpy as _np
from . import terms as T
from .terms import Sym, Unsupported

PRE = "$"


def _nodomain(f):
    def g(*a, **kw):
        hook, Sym.on_domain = Sym.on_domain, None
        try:
            return f(*a, **kw)
        finally:
            Sym.on_domain = hook
    g.__name__ = f.__name__
    return g


def make(k):
    W = {}

    # ------------------------------------------------------------------------------------------- expressions
    class Basic:
        pass

    class Expr(Basic):
        _is_expr = True
        __array_priority__ = 1000
        __array_ufunc__ = None

        def __hash__(s):
            return s.t.id

        def __eq__(s, o):
            b = lift(o)
            if b is None:
                return False
            return structural(s.t, b)

        def __ne__(s, o):
            return not (s == o)

        def __bool__(s):
            return True        # SymPy: an Expr that is not a relational is truthy unless it is the number 0

        def __getattr__(s, n):
            if n.startswith("__") or n in ABSENT:
                raise AttributeError(n)
            raise Unsupported("sympy expression attribute ." + n)

        def __repr__(s):
            return "E(%s)" % T.show(s.t)
        __str__ = __repr__

        @property
        def free_symbols(s):
            return {mk(v) for v in T.variables(s.t) if v is not T.PI}

        def atoms(s, *types_):
            return atoms_of([s.t], types_)

        def has(s, *what):
            vs = T.variables(s.t)
            for w in what:
                if isinstance(w, Symbol):
                    if w.t in vs:
                        return True
                else:
                    raise Unsupported("has")
            return False

        def subs(s, *a, **kw):
            return mk(substitute([s.t], a, kw)[0])
        xreplace = subs

        def diff(s, *a, **kw):
            return diff(s, *a, **kw)

        def simplify(s, *a, **kw):
            return s
        expand = factor = cancel = together = doit = trigsimp = radsimp = ratsimp = nsimplify = rewrite_ = simplify

        def evalf(s, *a, **kw):
            if a[1:] or kw:
                raise Unsupported("evalf arguments")
            return s

        @property
        def is_zero(s):
            return structural(s.t, T.ZERO) or None

        @property
        def is_number(s):
            return not {v for v in T.variables(s.t) if v is not T.PI}

        @property
        def is_symbol(s):
            return isinstance(s, Symbol)
        is_Symbol = is_symbol

        def __float__(s):
            if s.t.op == "const":
                return float(s.t.args[0])
            raise Unsupported("float of a symbolic expression")

        def __int__(s):
            if s.t.op == "const":
                return int(s.t.args[0])
            raise Unsupported("int of a symbolic expression")

        def __index__(s):
            if s.t.op == "const" and s.t.args[0].denominator == 1:
                return int(s.t.args[0])
            raise TypeError("expression cannot be interpreted as an integer")

        def __lt__(s, o):
            raise Unsupported("comparison of symbolic expressions")
        __le__ = __gt__ = __ge__ = __lt__

        def __neg__(s):
            return mk(T.neg(s.t))

        def __pos__(s):
            return s

        def __abs__(s):
            raise Unsupported("abs of a symbolic expression")

    ABSENT = {"tolist", "shape", "rank", "_shape", "dtype", "tomatrix", "applyfunc", "unit", "si", "value", "deriv", "val", "name", "keys", "items", "rows", "cols"}

    class Symbol(Expr):

        def __new__(cls, name, **assumptions):
            o = object.__new__(cls)
            o.name = name
            en = PRE + name
            pos = bool(assumptions.get("positive"))
            if en not in k.kinds:
                k._declare(en, "pos" if pos else "real", None)
            o.t = T.var(en)
            return o

        def __init__(self, *a, **kw):
            pass

        def __str__(s):
            return s.name
        __repr__ = __str__

    class AppliedUndef(Expr):
        pass

    class UndefinedFunction:
        def __init__(s, name):
            s.name = name
            s.__name__ = name

        def __call__(s, *args):
            return mk(T.app(PRE + s.name, [need(a) for a in args]))

        def __eq__(s, o):
            return isinstance(o, UndefinedFunction) and s.name == o.name

        def __hash__(s):
            return hash(s.name)

    class Number(Expr):
        @property
        def p(s):
            return s.t.args[0].numerator

        @property
        def q(s):
            return s.t.args[0].denominator

        def __bool__(s):
            return s.t.args[0] != 0

    def mk(t):
        if t.op == "var" and t.args[0].startswith(PRE):
            o = object.__new__(Symbol)
            o.name = t.args[0][len(PRE):]
        elif t.op == "const":
            o = object.__new__(Number)
        elif t.op == "app" and not t.args[1]:
            o = object.__new__(AppliedUndef)
        else:
            o = object.__new__(Expr)
        o.t = t
        return o

    def lift(o):
        if isinstance(o, Expr):
            return o.t
        if isinstance(o, (NDArray, Matrix, list, tuple, str)) or o is None:
            return None
        if getattr(o, "_is_shim_quantity", False):
            return None
        return T.lift(o)

    def need(o):
        t = lift(o)
        if t is None:
            if isinstance(o, str):
                return sympify(o).t
            raise SympifyError("cannot sympify %r" % type(o))
        return t

    class SympifyError(ValueError):
        pass

    def sympify(o, *a, **kw):
        if isinstance(o, (Expr, NDArray, Matrix, UndefinedFunction)):
            return o
        if isinstance(o, str):
            if o.isidentifier():
                return Symbol(o)
            raise Unsupported("sympify of text")
        if isinstance(o, (list, tuple)):
            return type(o)(sympify(x) for x in o)
        return mk(need(o))

    def structural(a, b):
        if a is b:
            return True
        atomic = ("var", "const")
        if a.op in atomic and b.op in atomic:
            return False
        try:
            same = k.alg.zero(T.add(a, T.neg(b)))
        except Exception:
            raise Unsupported("structural comparison")
        if not same:
            return False
        n = k.ghost["nd"] = k.ghost.get("nd", 0) + 1
        v = k._declare("nd%d" % n, "real", None)
        return bool(v > 0)

    def binop(name, f):
        def m(s, o):
            b = lift(o)
            if b is None:
                return NotImplemented
            return mk(f(s.t, b))

        def r(s, o):
            b = lift(o)
            if b is None:
                return NotImplemented
            return mk(f(b, s.t))
        setattr(Expr, "__%s__" % name, _nodomain(m))
        setattr(Expr, "__r%s__" % name, _nodomain(r))
    binop("add", T.add)
    binop("sub", lambda a, b: T.add(a, T.neg(b)))
    binop("mul", T.mul)
    binop("pow", T.pow_)

    def _div(a, b):
        if b.op == "const" and b.args[0] == 0:
            raise Unsupported("division by the number zero (zoo)")
        return T.div(a, b)
    binop("truediv", _div)

    def atoms_of(ts, types_):
        out = set()
        seen = set()
        stack = list(ts)
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "app":
                if AppliedUndef in types_:
                    out.add(mk(T.app(n.args[0], n.args[2:])))
                if UndefinedFunction in types_:
                    out.add(UndefinedFunction(n.args[0][len(PRE):]))
            elif n.op == "var" and (Symbol in types_ or not types_) and n is not T.PI:
                out.add(mk(n))
            elif n.op == "const" and (Number in types_ or not types_):
                out.add(mk(n))
            stack.extend(a for a in n.args if isinstance(a, Sym))
        return out

    def substitute(ts, a, kw):
        """SymPy substitution, sequential unless simultaneous=True"""
        sim = kw.get("simultaneous", False)
        if len(a) == 2:
            pairs = [(a[0], a[1])]
        elif len(a) == 1:
            p = a[0]
            if isinstance(p, dict):
                pairs = list(p.items())
                news = [v for _, v in pairs]
                olds = [lift(o) for o, _ in pairs]
                if any(o is not None and o in T.variables(need(v)) for v in news for o in olds) and len(pairs) > 1 and not sim:
                    raise Unsupported("dictionary substitution whose order matters")
            else:
                pairs = [tuple(x) for x in p]
                if any(len(x) != 2 for x in pairs):
                    raise ValueError("subs accepts pairs")
        else:
            raise ValueError("subs accepts either 1 or 2 arguments")
        m = {}
        for o, n in pairs:
            o = lift(sympify(o))
            if o is None or o.op not in ("var", "app"):
                raise Unsupported("substitution of a compound expression")
            m1 = {o: need(n)}
            if sim:
                m.update(m1)
            else:
                ts = [sub1(t, m1) for t in ts]
        if sim:
            ts = [sub1(t, m) for t in ts]
        return ts

    def sub1(t, m):
        if any(o.op != "var" for o in m):
            raise Unsupported("substitution of a function")
        return T.subst(t, m)

    def diff(e, *wrt, **kw):
        if isinstance(e, NDArray):
            for w in wrt:
                e = type(e)([diff(x, w) for x in e._flat], e.shape)
            return e
        e = sympify(e)
        t = e.t
        last = None
        for w in wrt:
            if isinstance(w, (tuple, list)) and len(w) == 2:
                w, n = w
                for _ in range(int(n)):
                    t = diff(mk(t), w).t
                continue
            if isinstance(w, int) and last is not None:
                for _ in range(w - 1):
                    t = T.diff(t, last.t)
                continue
            if not isinstance(w, Symbol):
                w = sympify(w)
                if not isinstance(w, Symbol):
                    raise ValueError("Can't calculate derivative wrt %s." % (w,))
            t = T.diff(t, w.t)
            last = w
        return mk(t)

    # ------------------------------------------------------------------------------------------- arrays
    def dense(it):
        """nested sequence -> (flat, shape)"""
        if isinstance(it, NDArray):
            return list(it._flat), it.shape
        if isinstance(it, Matrix):
            return [x for r in it._rows for x in r], (it.rows, it.cols)
        if isinstance(it, _np.ndarray):
            return [mk(need(x)) for x in it.ravel()], tuple(it.shape)
        if isinstance(it, (list, tuple)) or hasattr(it, "__next__") or isinstance(it, (range, map)):
            it = list(it)
            if not it:
                return [], (0,)
            parts = [dense(x) for x in it]
            sh = parts[0][1]
            if any(p[1] != sh for p in parts):
                raise ValueError("could not determine shape")
            return [y for p in parts for y in p[0]], (len(it),) + sh
        return [mk(need(it))], ()

    class NDArray(Basic):
        _is_array = True

        def __new__(cls, iterable, shape=None, **kw):
            flat, sh = dense(iterable)
            if shape is not None:
                shape = (shape,) if isinstance(shape, int) else tuple(int(x) for x in shape)
                n = 1
                for x in shape:
                    n *= x
                if n != len(flat):
                    raise ValueError("Shape and iterable size mismatch")
                sh = shape
            o = object.__new__(cls)
            o._flat, o.shape = flat, sh
            return o

        def __init__(self, *a, **kw):
            pass

        def __getattr__(s, n):
            if n.startswith("__") or n in ("unit", "si", "value", "deriv", "val", "name", "inv", "t"):
                raise AttributeError(n)
            raise Unsupported("sympy array attribute ." + n)

        def rank(s):
            return len(s.shape)

        def __len__(s):
            return len(s._flat)

        def tolist(s):
            if not s.shape:
                raise IndexError("tuple index out of range")

            def f(fl, sh):
                if len(sh) == 1:
                    return list(fl)
                n = len(fl) // sh[0]
                return [f(fl[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]
            return f(s._flat, s.shape)

        def _off(s, idx):
            o = 0
            for i, n in zip(idx, s.shape):
                i = int(i)
                if not -n <= i < n:
                    raise ValueError("Index %s out of border" % (idx,))
                o = o * n + (i % n)
            return o

        def __getitem__(s, i):
            if not isinstance(i, tuple):
                if not s.shape:
                    raise ValueError("Dimension of index greater than rank of array")
                i = (i,)
            if len(i) > len(s.shape):
                raise ValueError("Dimension of index greater than rank of array")
            i = i + (slice(None),) * (len(s.shape) - len(i))
            axes, sh = [], []
            for x, n in zip(i, s.shape):
                if isinstance(x, slice):
                    r = range(n)[x]
                    axes.append(list(r))
                    sh.append(len(r))
                else:
                    axes.append([x])
            fl = [s._flat[s._off(ix)] for ix in itertools.product(*axes)]
            if not sh:
                return fl[0]
            return mkarr(type(s), fl, tuple(sh))

        def __iter__(s):
            if not s.shape:
                return iter([s._flat[0]])
            return iter([s[j] for j in range(s.shape[0])])

        def __eq__(s, o):
            if not isinstance(o, NDArray):
                return False
            return s.shape == o.shape and all(a == b for a, b in zip(s._flat, o._flat))

        def __ne__(s, o):
            return not s == o

        def __hash__(s):
            return hash((s.shape, tuple(x.t.id for x in s._flat)))

        def _zip(s, o, f):
            if not isinstance(o, NDArray):
                return NotImplemented
            if s.shape != o.shape:
                raise ValueError("array shape mismatch")
            return mkarr(type(s), [f(a, b) for a, b in zip(s._flat, o._flat)], s.shape)

        def __add__(s, o):
            return s._zip(o, lambda a, b: a + b)

        def __sub__(s, o):
            return s._zip(o, lambda a, b: a - b)

        def _scal(s, o, f):
            if isinstance(o, (NDArray, list, tuple, Matrix)):
                raise ValueError("scalar expected, use tensorproduct(...) for tensorial product")
            o = mk(need(o))
            return mkarr(type(s), [f(a, o) for a in s._flat], s.shape)

        def __mul__(s, o):
            return s._scal(o, lambda a, b: a * b)

        def __rmul__(s, o):
            return s._scal(o, lambda a, b: b * a)

        def __truediv__(s, o):
            return s._scal(o, lambda a, b: a / b)

        def __neg__(s):
            return mkarr(type(s), [-a for a in s._flat], s.shape)

        def applyfunc(s, f):
            return mkarr(type(s), [sympify(f(a)) for a in s._flat], s.shape)

        def subs(s, *a, **kw):
            return mkarr(type(s), [mk(t) for t in substitute([x.t for x in s._flat], a, kw)], s.shape)

        def diff(s, *a, **kw):
            return diff(s, *a, **kw)

        def simplify(s, *a, **kw):
            return simplify(s)

        def doit(s, **kw):
            return s

        def reshape(s, *sh):
            sh = tuple(sh[0]) if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else tuple(sh)
            n = 1
            for x in sh:
                n *= x
            if n != len(s._flat):
                raise ValueError("Expecting reshape size to be %s" % len(s._flat))
            return mkarr(type(s), list(s._flat), sh)

        def transpose(s):
            return permutedims(s, [1, 0]) if len(s.shape) == 2 else bad("transpose")

        def tomatrix(s):
            if len(s.shape) != 2:
                raise ValueError("Dimensions must be of size of 2")
            return Matrix(s.tolist())

        def as_immutable(s):
            return mkarr(ImmutableDenseNDimArray, list(s._flat), s.shape)

        def as_mutable(s):
            return mkarr(MutableDenseNDimArray, list(s._flat), s.shape)

        def copy(s):
            return mkarr(type(s), list(s._flat), s.shape)

        @property
        def free_symbols(s):
            r = set()
            for x in s._flat:
                r |= x.free_symbols
            return r

        def atoms(s, *types_):
            return atoms_of([x.t for x in s._flat], types_)

        @classmethod
        def zeros(cls, *shape):
            n = 1
            for x in shape:
                n *= x
            return mkarr(cls, [mk(T.ZERO)] * n, tuple(shape))

        def __repr__(s):
            return repr(s._flat)

    def bad(w):
        raise Unsupported(w)

    def mkarr(cls, flat, shape):
        if cls not in (ImmutableDenseNDimArray, MutableDenseNDimArray):
            cls = ImmutableDenseNDimArray
        o = object.__new__(cls)
        o._flat, o.shape = flat, tuple(shape)
        return o

    class ImmutableDenseNDimArray(NDArray):
        def __setitem__(s, i, v):
            raise TypeError("immutable N-dim array")

    class MutableDenseNDimArray(NDArray):
        def __setitem__(s, i, v):
            i = i if isinstance(i, tuple) else (i,)
            if len(i) != len(s.shape) or any(isinstance(x, slice) for x in i):
                raise Unsupported("array slice assignment")
            s._flat[s._off(i)] = sympify(v)

    # ------------------------------------------------------------------------------------------- tensors
    def arr(x):
        return x if isinstance(x, NDArray) else ImmutableDenseNDimArray(x)

    def tensorproduct(*args):
        if not args:
            return mk(T.ONE)
        r = args[0]
        for b in args[1:]:
            if not isinstance(r, (NDArray, list, tuple, Matrix)) and not isinstance(b, (NDArray, list, tuple, Matrix)):
                r = mk(need(r)) * mk(need(b))
                continue
            A, B = arr(r), arr(b)
            r = mkarr(ImmutableDenseNDimArray, [x * y for x in A._flat for y in B._flat], A.shape + B.shape)
        return sympify(r) if len(args) == 1 and not isinstance(r, (list, tuple)) else (arr(r) if isinstance(r, (list, tuple)) else r)

    def tensorcontraction(a, *groups):
        a = arr(a)
        used = [int(i) for g in groups for i in g]
        if len(set(used)) != len(used):
            raise ValueError("dimension specified more than once")
        rank = len(a.shape)
        for g in groups:
            if any(not -rank <= int(i) < rank for i in g):
                raise IndexError("tuple index out of range")
            if any(int(i) < 0 for i in g):
                bad("negative contraction axis")
            if len({a.shape[int(i)] for i in g}) != 1:
                raise ValueError("cannot contract or diagonalize between axes of different dimension")
        free = [i for i in range(rank) if i not in used]
        sh = tuple(a.shape[i] for i in free)
        out = []
        for ix in itertools.product(*[range(n) for n in sh]):
            full = [0] * rank
            for i, v in zip(free, ix):
                full[i] = v
            s = mk(T.ZERO)
            for cs in itertools.product(*[range(a.shape[int(g[0])]) for g in groups]):
                for g, v in zip(groups, cs):
                    for i in g:
                        full[int(i)] = v
                s = s + a._flat[a._off(full)]
            out.append(s)
        if not sh:
            return out[0]
        return mkarr(ImmutableDenseNDimArray, out, sh)

    def tensordiagonal(*a):
        bad("tensordiagonal")

    def permutedims(a, perm=None, **kw):
        a = arr(a)
        if kw or perm is None or not isinstance(perm, (list, tuple)):
            bad("permutedims arguments")
        perm = [int(p) for p in perm]
        if sorted(perm) != list(range(len(a.shape))):
            raise ValueError("Permutation should be of the array's rank")
        sh = tuple(a.shape[p] for p in perm)
        out = []
        for ix in itertools.product(*[range(n) for n in sh]):
            old = [0] * len(perm)
            for pos, p in enumerate(perm):
                old[p] = ix[pos]
            out.append(a._flat[a._off(old)])
        return mkarr(ImmutableDenseNDimArray, out, sh)

    def derive_by_array(e, dx):
        ds = arr(dx) if isinstance(dx, (list, tuple, NDArray)) else None
        if ds is None:
            return diff(e, dx)
        if isinstance(e, (list, tuple, NDArray)):
            e = arr(e)
            return mkarr(ImmutableDenseNDimArray, [diff(y, x) for x in ds._flat for y in e._flat], ds.shape + e.shape)
        return mkarr(ImmutableDenseNDimArray, [diff(e, x) for x in ds._flat], ds.shape)

    # ------------------------------------------------------------------------------------------- matrices
    inverses = {}

    class Matrix(Basic):
        def __init__(s, *a):
            if len(a) == 3:
                r, c, f = a
                if callable(f):
                    rows = [[sympify(f(i, j)) for j in range(c)] for i in range(r)]
                else:
                    f = list(f)
                    rows = [[sympify(f[i * c + j]) for j in range(c)] for i in range(r)]
            elif len(a) == 1:
                x = a[0]
                if isinstance(x, Matrix):
                    rows = [list(r) for r in x._rows]
                else:
                    if isinstance(x, (list, tuple)) and x and not isinstance(x[0], (list, tuple, NDArray, _np.ndarray)):
                        x = [[y] for y in x]
                    fl, sh = dense(x)
                    if len(sh) == 1:
                        fl, sh = fl, (sh[0], 1)
                    if len(sh) != 2:
                        raise ValueError("matrix expected")
                    rows = [fl[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]
            else:
                bad("Matrix constructor")
            s._rows = rows

        @property
        def rows(s):
            return len(s._rows)

        @property
        def cols(s):
            return len(s._rows[0]) if s._rows else 0

        @property
        def shape(s):
            return (s.rows, s.cols)

        def __getattr__(s, n):
            if n.startswith("__") or n in ("unit", "si", "value", "deriv", "val", "name", "t"):
                raise AttributeError(n)
            raise Unsupported("sympy matrix attribute ." + n)

        def __getitem__(s, i):
            if isinstance(i, tuple):
                r, c = i
                if isinstance(r, slice) or isinstance(c, slice):
                    rr = range(s.rows)[r] if isinstance(r, slice) else [r]
                    cc = range(s.cols)[c] if isinstance(c, slice) else [c]
                    return Matrix([[s._rows[x][y] for y in cc] for x in rr])
                if not (-s.rows <= r < s.rows and -s.cols <= c < s.cols):
                    raise IndexError("Index out of range: a[%s]" % (i,))
                return s._rows[int(r)][int(c)]
            return [x for r in s._rows for x in r][i]

        def __setitem__(s, i, v):
            if not isinstance(i, tuple) or any(isinstance(x, slice) for x in i):
                bad("matrix slice assignment")
            s._rows[i[0]][i[1]] = sympify(v)

        def __iter__(s):
            return iter([x for r in s._rows for x in r])

        def __len__(s):
            return s.rows * s.cols

        def tolist(s):
            return [list(r) for r in s._rows]

        def _map(s, f):
            return Matrix([[f(x) for x in r] for r in s._rows])

        def applyfunc(s, f):
            return s._map(lambda x: sympify(f(x)))

        def simplify(s, *a, **kw):
            return None        # in place, value preserving

        def copy(s):
            return s._map(lambda x: x)
        as_mutable = as_immutable = doit = copy

        def subs(s, *a, **kw):
            return s._map(lambda x: x.subs(*a, **kw))

        def diff(s, *a):
            return s._map(lambda x: diff(x, *a))

        @property
        def T(s):
            return Matrix([[s._rows[i][j] for i in range(s.rows)] for j in range(s.cols)])

        def transpose(s):
            return s.T

        def __add__(s, o):
            return Matrix([[a + b for a, b in zip(p, q)] for p, q in zip(s._rows, o._rows)])

        def __sub__(s, o):
            return Matrix([[a - b for a, b in zip(p, q)] for p, q in zip(s._rows, o._rows)])

        def __neg__(s):
            return s._map(lambda x: -x)

        def __mul__(s, o):
            if isinstance(o, Matrix):
                if s.cols != o.rows:
                    raise ShapeError("Matrix size mismatch")
                out = []
                for i in range(s.rows):
                    row = []
                    for j in range(o.cols):
                        x = mk(T.ZERO)
                        for n in range(s.cols):
                            x = x + s._rows[i][n] * o._rows[n][j]
                        row.append(x)
                    out.append(row)
                return Matrix(out)
            o = mk(need(o))
            return s._map(lambda x: x * o)
        __matmul__ = __mul__

        def __rmul__(s, o):
            o = mk(need(o))
            return s._map(lambda x: o * x)

        def __truediv__(s, o):
            o = mk(need(o))
            return s._map(lambda x: x / o)

        def __eq__(s, o):
            return isinstance(o, Matrix) and s.shape == o.shape and all(a == b for a, b in zip(s, o))

        def __hash__(s):
            return id(s)

        def minor_(s, i, j):
            return Matrix([[x for b, x in enumerate(r) if b != j] for a, r in enumerate(s._rows) if a != i])

        def det(s, *a, **kw):
            if s.rows != s.cols:
                raise NonSquareMatrixError()
            return mk(det([[x.t for x in r] for r in s._rows]))

        def adjugate(s, *a, **kw):
            return Matrix([[mk(x) for x in r] for r in adj([[x.t for x in r] for r in s._rows])])

        def inv(s, method=None, **kw):
            if s.rows != s.cols:
                raise NonSquareMatrixError("A Matrix must be square to invert.")
            return Matrix([[mk(x) for x in r] for r in inverse([[x.t for x in r] for r in s._rows])])

        def inverse(s, *a, **kw):
            return s.inv()

        def is_symmetric(s, *a, **kw):
            return s == s.T

        def is_diagonal(s):
            return all(s._rows[i][j] == 0 for i in range(s.rows) for j in range(s.cols) if i != j)

        def trace(s):
            x = mk(T.ZERO)
            for i in range(s.rows):
                x = x + s._rows[i][i]
            return x

        def __pow__(s, n):
            if n == -1:
                return s.inv()
            bad("matrix power")

        @classmethod
        def eye(cls, n, *a):
            return eye(n)

        @classmethod
        def zeros(cls, r, c=None, **kw):
            return zeros_(r, c)

        @classmethod
        def diag(cls, *a, **kw):
            return diag(*a)

    class ShapeError(ValueError):
        pass

    class NonSquareMatrixError(ShapeError):
        pass

    def det(m):
        n = len(m)
        if n == 0:
            return T.ONE
        if n == 1:
            return m[0][0]
        # expand along the row with the most zeros
        row = max(range(n), key=lambda i: sum(1 for x in m[i] if x is T.ZERO))
        s = T.ZERO
        for j in range(n):
            if m[row][j] is T.ZERO:
                continue
            d = det([[x for b, x in enumerate(r) if b != j] for a, r in enumerate(m) if a != row])
            t = T.mul(m[row][j], d)
            s = T.add(s, t if (row + j) % 2 == 0 else T.neg(t))
        return s

    def adj(m):
        n = len(m)
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                d = det([[x for b, x in enumerate(r) if b != i] for a, r in enumerate(m) if a != j])
                out[i][j] = d if (i + j) % 2 == 0 else T.neg(d)
        return out

    def inverse(m):
        """the inverse matrix; the inverse of an inverse is the matrix itself"""
        key = tuple(x.id for r in m for x in r)
        if key in inverses:
            return inverses[key]
        hook, Sym.on_domain = Sym.on_domain, None
        try:
            n = len(m)
            if all(m[i][j] is T.ZERO for i in range(n) for j in range(n) if i != j):
                if any(m[i][i] is T.ZERO for i in range(n)):
                    raise NonInvertibleMatrixError("Matrix det == 0; not invertible.")
                r = [[T.div(T.ONE, m[i][i]) if i == j else T.ZERO for j in range(n)] for i in range(n)]
            else:
                d = det(m)
                if d is T.ZERO:
                    raise NonInvertibleMatrixError("Matrix det == 0; not invertible.")
                try:
                    z = k.alg.zero(d)
                except Exception:
                    z = False
                if z:
                    raise NonInvertibleMatrixError("Matrix det == 0; not invertible.")
                a = adj(m)
                r = [[T.div(x, d) for x in row] for row in a]
        finally:
            Sym.on_domain = hook
        inverses[key] = r
        inverses[tuple(x.id for q in r for x in q)] = [list(q) for q in m]
        return r

    class NonInvertibleMatrixError(ValueError):
        pass

    def eye(n, *a):
        return Matrix([[1 if i == j else 0 for j in range(n)] for i in range(n)])

    def zeros_(r, c=None, **kw):
        return Matrix([[0] * (c if c is not None else r) for _ in range(r)])

    def diag(*a, **kw):
        if kw:
            bad("diag arguments")
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        n = len(a)
        return Matrix([[a[i] if i == j else 0 for j in range(n)] for i in range(n)])

    # ------------------------------------------------------------------------------------------- functions
    def simplify(e, *a, **kw):
        if isinstance(e, NDArray):
            if not e.shape:
                raise TypeError("object of type 'map' has no len()")
            return mkarr(type(e), list(e._flat), e.shape)
        if isinstance(e, Matrix):
            return e.copy()
        return sympify(e)

    def fun1(name, f):
        def g(x, *a):
            if a or isinstance(x, (NDArray, Matrix)):
                bad(name + " of an array")
            hook, Sym.on_domain = Sym.on_domain, None
            try:
                return mk(f(need(x)))
            finally:
                Sym.on_domain = hook
        g.__name__ = name
        return g

    def e_(x):
        return T.fn("exp", x)
    F = {
        "sin": fun1("sin", lambda x: T.fn("sin", x)), "cos": fun1("cos", lambda x: T.fn("cos", x)),
        "tan": fun1("tan", lambda x: T.div(T.fn("sin", x), T.fn("cos", x))),
        "cot": fun1("cot", lambda x: T.div(T.fn("cos", x), T.fn("sin", x))),
        "sec": fun1("sec", lambda x: T.div(T.ONE, T.fn("cos", x))),
        "csc": fun1("csc", lambda x: T.div(T.ONE, T.fn("sin", x))),
        "exp": fun1("exp", e_), "log": fun1("log", lambda x: T.fn("log", x)), "ln": fun1("ln", lambda x: T.fn("log", x)),
        "sqrt": fun1("sqrt", T.sqrt),
        "sinh": fun1("sinh", lambda x: T.div(T.add(e_(x), T.neg(e_(T.neg(x)))), T.const(2))),
        "cosh": fun1("cosh", lambda x: T.div(T.add(e_(x), e_(T.neg(x))), T.const(2))),
        "tanh": fun1("tanh", lambda x: T.div(T.add(e_(x), T.neg(e_(T.neg(x)))), T.add(e_(x), e_(T.neg(x))))),
        "acos": fun1("acos", lambda x: T.fn("acos", x)), "asin": fun1("asin", lambda x: T.fn("asin", x)),
    }

    def besselj(nu, z):
        n = need(nu)
        if n.op == "const" and n.args[0].denominator == 1:
            return mk(T.app("besselj%d" % int(n.args[0]), [need(z)]))
        return mk(T.app("besselj", [n, need(z)]))

    def symbols(names, **kw):
        cls = kw.pop("cls", Symbol)
        seq = kw.pop("seq", False)
        if not isinstance(names, str):
            return type(names)(symbols(n, cls=cls, **kw) for n in names)
        trailing = names.strip().endswith(",")
        parts = [n for n in names.replace(",", " ").split() if n]
        out = []
        for n in parts:
            if ":" in n:
                import re
                m = re.fullmatch(r"(\w*?)(\d*):(\d+)", n)
                if not m:
                    bad("symbol range")
                a = int(m.group(2) or 0)
                out += ["%s%d" % (m.group(1), i) for i in range(a, int(m.group(3)))]
                seq = True
            else:
                out.append(n)
        r = tuple(cls(n, **kw) if cls is Symbol else cls(n) for n in out)
        return r[0] if len(r) == 1 and not seq and not trailing else r

    def Rational(p, q=1):
        if isinstance(p, str):
            return mk(T.const(Fraction(p)))
        a, b = need(p), need(q)
        if a.op != "const" or b.op != "const":
            bad("Rational of expressions")
        return mk(T.const(a.args[0] / b.args[0]))

    def lambdify(args, expr, modules=None, printer=None, **kw):
        args = [args] if isinstance(args, Expr) else list(args)
        vs = []
        for a in args:
            if not isinstance(a, Symbol):
                bad("lambdify over a non-symbol")
            vs.append(a.t)

        def f(*vals):
            if len(vals) != len(vs):
                raise TypeError("_lambdifygenerated() takes %d positional arguments but %d were given" % (len(vs), len(vals)))
            m = {}
            for v, x in zip(vs, vals):
                t = T.lift(x) if not isinstance(x, Expr) else x.t
                if t is None:
                    bad("lambdified function applied to an array")
                m[v] = t

            def one(e):
                t = T.subst(e.t, m)
                left = [v for v in T.variables(t) if v.args[0].startswith(PRE) and v in T.variables(e.t) and v not in m]
                if left:
                    raise NameError("name '%s' is not defined" % left[0].args[0][1:])
                return t
            if isinstance(expr, NDArray):
                from . import npshim
                r = _np.empty(expr.shape, dtype=object)
                for ix, e in zip(_np.ndindex(*expr.shape), expr._flat):
                    r[ix] = one(e)
                return npshim.arr(r) if expr.shape else one(expr._flat[0])
            if isinstance(expr, (list, tuple)):
                return type(expr)(one(sympify(e)) for e in expr)
            return one(sympify(expr))
        return f

    class SType:
        Zero, One, NegativeOne, Half, Pi = mk(T.ZERO), mk(T.ONE), mk(T.const(-1)), mk(T.const(Fraction(1, 2))), mk(T.PI)
        Exp1 = mk(T.EULER)

        def __call__(s, x):
            return sympify(x)

        def __getattr__(s, n):
            raise Unsupported("sympy.S." + n)

    def Derivative(e, *w, **kw):
        return diff(e, *w)

    def Add(*a):
        r = mk(T.ZERO)
        for x in a:
            r = r + mk(need(x))
        return r

    def Mul(*a):
        r = mk(T.ONE)
        for x in a:
            r = r * mk(need(x))
        return r

    def Pow(a, b):
        return mk(need(a)) ** mk(need(b))

    names = dict(Basic=Basic, Expr=Expr, Symbol=Symbol, Function=UndefinedFunction, AppliedUndef=AppliedUndef, UndefinedFunction=UndefinedFunction,
                 NDimArray=NDArray, Array=ImmutableDenseNDimArray, ImmutableDenseNDimArray=ImmutableDenseNDimArray, MutableDenseNDimArray=MutableDenseNDimArray,
                 ImmutableNDimArray=ImmutableDenseNDimArray, DenseNDimArray=NDArray, MutableNDimArray=MutableDenseNDimArray,
                 Matrix=Matrix, ImmutableMatrix=Matrix, MutableDenseMatrix=Matrix, eye=eye, zeros=zeros_, diag=diag,
                 tensorproduct=tensorproduct, tensorcontraction=tensorcontraction, permutedims=permutedims, derive_by_array=derive_by_array,
                 diff=diff, Derivative=Derivative, simplify=simplify, expand=simplify, factor=simplify, cancel=simplify, together=simplify, trigsimp=simplify,
                 ratsimp=simplify, nsimplify=simplify, radsimp=simplify, powsimp=simplify, sympify=sympify, S=SType(), symbols=symbols, Rational=Rational,
                 Integer=lambda n: mk(T.const(int(n))), Float=lambda x, *a: mk(need(x)), Number=Number, pi=mk(T.PI), E=mk(T.EULER), besselj=besselj, lambdify=lambdify, Add=Add, Mul=Mul, Pow=Pow, **F)

    class Mod(types.ModuleType):
        def __getattr__(s, n):
            if n.startswith("__"):
                raise AttributeError(n)
            raise Unsupported("%s.%s" % (s.__name__, n))

    mods = {}
    for m in ("sympy", "sympy.core", "sympy.core.expr", "sympy.core.function", "sympy.core.symbol", "sympy.core.basic", "sympy.tensor", "sympy.tensor.array",
              "sympy.tensor.array.dense_ndim_array", "sympy.tensor.array.ndim_array", "sympy.matrices", "sympy.utilities", "sympy.utilities.lambdify", "sympy.functions"):
        mm = Mod(m)
        if m not in ("sympy.core", "sympy.utilities"):
            mm.__dict__.update(names)
        mods[m] = mm
    mods["sympy"].__dict__.update({"core": mods["sympy.core"], "tensor": mods["sympy.tensor"], "matrices": mods["sympy.matrices"], "utilities": mods["sympy.utilities"]})
    mods["sympy.core"].__dict__.update({m: mods["sympy.core." + m] for m in ("expr", "function", "symbol", "basic")})
    mods["sympy.core"].__dict__.update(names)
    mods["sympy.tensor"].__dict__["array"] = mods["sympy.tensor.array"]
    mods["_inverse"] = inverse
    mods["_mk"] = mk
    mods["_Expr"] = Expr
    mods["_NDArray"] = NDArray
    return mods
