"""Sequences of symbolic length and the contract of `for` loops over them (worlds of harnesses marked generic).

    Seq(n, at)     n elements (a term), the i-th given by at(i) for an index term i
    GList          a Python list that may hold such a sequence

A `for` loop over a sequence of symbolic length n > 0 is verified by induction on the number of iterations:

  first      the body from the state before the loop, with element 0: verified as it stands; tells what the body changes
             (numbers, attributes of the package's objects, lists it appends to);
  infer      the body from an arbitrary state with element i: a change that does not depend on the state is constant,
             so the value is v0 + i*d (the invariant); otherwise the values are an opaque sequence v(i) with their recurrence;
  preserve   the body from the state of an arbitrary iteration 0 <= i < n: the invariant holds again for i + 1 (obligation);
             every way through the body is recorded: its condition, the facts it may rely on, what it appends;
  exit       the state after n iterations. A list every iteration appends one element to has n more elements, the j-th being
             that of iteration j; a list only some ways append to has m <= n more, the j-th being that of iteration
             sigma(j), sigma strictly increasing, onto the iterations that satisfy the condition.

Anything else the body does (other mutation, break, return, symbols that would be shared by all iterations) is Unsupported."""
import ast
import builtins
import functools
import re
import types
import sys
import numpy as _np
from . import terms as T
from .terms import Sym, SymBool, Unsupported
from .loops import PathEnd, UNBOUND, _Unbound, _assigned

K = None          # the current SymK


def gen(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, GList):
        return x.seq
    return None


def quiet(f):
    hook, Sym.on_domain = Sym.on_domain, None
    try:
        return f()
    finally:
        Sym.on_domain = hook


def same(a, b):
    a, b = T.lift_or_fail(a), T.lift_or_fail(b)
    return a is b or quiet(lambda: K.quick(T.mkbool("==", T.add(a, T.neg(b)))) is True)


class Seq:
    __array_ufunc__ = None
    dtype = _np.dtype(object)
    _element = 0

    def __init__(self, n, at, keeps=None, key=None):
        self.n, self._at, self.keeps, self.key = T.lift_or_fail(n), at, keeps, key or object()
        if self.n.op != "const" and not any(x is self.n for x in K.lengths):
            K.lengths.append(self.n)

    def at(self, i):
        return quiet(lambda: self._at(T.lift_or_fail(i)))

    def element(self):
        """shape of an element: () for a number, None for anything that is not an array of numbers"""
        if self._element == 0:
            if self.n.op == "const":
                i = T.ZERO
            else:
                if not bool(T.lb(self.n > 0)):
                    raise Unsupported("shape of an empty sequence")
                i = T.lift_or_fail(K.real("any element %d" % len(K.lengths), "nonneg"))
                K.assume(i <= self.n - 1)
            leaves = []
            st = structure(self.at(i), leaves)
            while st == "n" and len(leaves) > 1:
                raise Unsupported("element")
            dims = []
            x = st
            while x is not None and x != "n":
                dims.append(len(x[1]))
                x = x[1][0] if x[1] else None
            self._element = None if x is None else tuple(dims)
        return self._element

    @property
    def shape(self):
        return (self.n,) + (self.element() or ())

    @property
    def ndim(self):
        return 1 + len(self.element() or ())

    @property
    def size(self):
        n = self.n
        for d in self.element() or ():
            n = T.mul(n, T.const(d))
        return n

    @property
    def T(self):
        e = self.element()
        if e == ():
            return self
        if e is None or len(e) != 1:
            raise Unsupported("transpose of a sequence of symbolic length")
        return Cols([self.map(lambda r, c=c: r[c]) for c in range(e[0])])

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose of a sequence of symbolic length")
        return self.T

    def astype(self, *a, **kw):
        return self.copy()

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        e = self.element()
        if e is None or len(a) < 2 or not all(isinstance(x, int) for x in a[1:]) or any(x < 0 for x in a[1:]) or not (a[0] == -1 or same(a[0], self.n)) \
                or _np.prod(a[1:], dtype=int) != _np.prod(e, dtype=int):
            raise Unsupported("reshape of a sequence of symbolic length")
        return self.map(lambda r: _np.array(r, dtype=object).reshape(a[1:]))

    def _no(self, *a, **k):
        raise Unsupported("operation on a sequence of symbolic length")
    __array__ = __setitem__ = __delitem__ = __bool__ = __contains__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __call__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __matmul__ = __len__ = __float__ = __int__ = __index__ = _no
    __hash__ = None

    def __iter__(self):
        if self.n.op != "const":
            raise Unsupported("iteration over a sequence of symbolic length")
        return iter([self.at(j) for j in range(int(self.n.args[0]))])

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("attribute %s of a sequence of symbolic length" % a)

    def copy(self):
        return Seq(self.n, self._at, self.keeps, self.key)

    def tolist(self):
        return GList.of(self)

    def map(self, f):
        return Seq(self.n, lambda i: f(self._at(i)))

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
                return self.map(lambda r: r[i[1]])
            return self[i[0]][i[1] if len(i) == 2 else i[1:]]
        if isinstance(i, slice):
            if i == slice(None):
                return self.copy()
            if i == slice(None, None, -1):
                return Seq(self.n, lambda j: self._at(T.add(T.add(self.n, T.neg(j)), T.const(-1))))
            if i.step not in (None, 1):
                raise Unsupported("slice of a sequence of symbolic length")

            def bound(x):
                x = T.lift_or_fail(x)
                if bool(T.lb(x < 0)):
                    x = T.add(self.n, x)
                    return x if bool(T.lb(x > 0)) else T.ZERO
                return x if bool(T.lb(x < self.n)) else self.n
            lo = T.ZERO if i.start is None else bound(i.start)
            hi = self.n if i.stop is None else bound(i.stop)
            m = T.add(hi, T.neg(lo))
            if not bool(T.lb(m > 0)):
                return GList()
            K.assume(m >= 1)
            return Seq(m, lambda j: self._at(T.add(lo, j)))
        i = T.lift_or_fail(i)
        if i.op == "const" and i.args[0] < 0:
            i = T.add(self.n, i)
        if K.in_code:
            K.true("index in range", T.band(T.lb(i >= 0), T.lb(i < self.n)))
        return self.at(i)

    def _two(self, o, f):
        g = gen(o)
        if g is not None:
            if not same(self.n, g.n):
                raise Unsupported("sequences of different length")
            return Seq(self.n, lambda i: f(self._at(i), g._at(i)))
        o = T.lift_or_fail(o)
        return Seq(self.n, lambda i: f(self._at(i), o))

    def __neg__(self):
        return self.map(lambda x: -x)

    def __pos__(self):
        return self.copy()

    def __add__(self, o):
        return self._two(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._two(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._two(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._two(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._two(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._two(o, lambda a, b: b * a)


class Cols:
    """a few sequences of the same symbolic length: an array of shape (c, n)"""
    __array_ufunc__ = None
    dtype = _np.dtype(object)
    ndim = 2

    def __init__(self, rows):
        self.rows = builtins.list(rows)
        if any(r.element() != () for r in self.rows):
            raise Unsupported("rows that are not sequences of numbers")
        if any(not same(r.n, self.rows[0].n) for r in self.rows):
            raise Unsupported("sequences of different length")

    shape = property(lambda self: (len(self.rows), self.rows[0].n))

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            if i[0] == slice(None) and not isinstance(i[1], slice):
                return _np.array([r[i[1]] for r in self.rows], dtype=object)
            r = self[i[0]]
            return r[i[1]] if isinstance(r, Seq) else Cols([x[i[1]] for x in r.rows])
        if isinstance(i, slice):
            return Cols(self.rows[i])
        return self.rows[int(i)]

    @property
    def T(self):
        rs = self.rows
        return Seq(rs[0].n, lambda i: _np.array([r._at(i) for r in rs], dtype=object))

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose of sequences of symbolic length")
        return self.T

    def astype(self, *a, **kw):
        return self

    copy = astype

    def _no(self, *a, **k):
        raise Unsupported("operation on sequences of symbolic length")
    __array__ = __setitem__ = __bool__ = __contains__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __call__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __matmul__ = _no
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("attribute %s of sequences of symbolic length" % a)


def rows_of(parts):
    """the rows of stacked sequences of numbers, or None"""
    out = []
    for p in parts:
        if isinstance(p, Cols):
            out += p.rows
        elif gen(p) is not None and gen(p).element() == ():
            out.append(gen(p))
        else:
            return None
    return out


def side_by_side(parts):
    """hstack / column_stack / concatenate(axis=1): the rows of the parts joined"""
    gs = []
    for p in parts:
        g = gen(p)
        if g is None or g.element() is None or len(g.element()) > 1:
            raise Unsupported("columns joined to a sequence of symbolic length")
        if gs and not same(g.n, gs[0].n):
            raise Unsupported("sequences of different length")
        gs.append(g)

    def at(i):
        out = []
        for g in gs:
            x = g._at(i)
            out += [x] if g.element() == () else builtins.list(x)
        return _np.array(out, dtype=object)
    return Seq(gs[0].n, at)


def from_list(xs):
    xs = builtins.list(xs)
    if len(xs) > 8:
        raise Unsupported("long list joined to a sequence of symbolic length")

    def at(i):
        for j, x in enumerate(xs[:-1]):
            if bool(T.lb(T.mkbool("==", T.add(i, T.const(-j))))):
                return x
        return xs[-1]
    return Seq(T.const(len(xs)), at)


def concat(a, b):
    if a.n is T.ZERO:
        return b
    if b.n is T.ZERO:
        return a

    def at(i):
        if bool(T.lb(i < a.n)):
            return a._at(i)
        return b._at(T.add(i, T.neg(a.n)))
    return Seq(T.add(a.n, b.n), at)


class GList(list):
    """a list; once it holds a sequence of symbolic length its storage is poisoned, so that nothing can read past the contract"""
    seq = None
    guard = False       # inside a loop that appends to the list: its contents are not those of the current iteration
    dropped = None      # the (empty) result of a loop that appends to the list under a condition

    @classmethod
    def of(cls, seq):
        r = cls()
        r.become(seq)
        return r

    def become(self, seq):
        list.clear(self)
        if seq.n.op == "const" and seq.n.args[0] < 100:
            self.seq = None
            list.extend(self, [seq.at(j) for j in range(int(seq.n.args[0]))])
            return
        list.append(self, UNBOUND)
        self.seq = seq

    def parts(self):
        return self.seq if self.seq is not None else from_list(self)

    def _guard(name):
        f = getattr(list, name)

        def g(self, *a, **k):
            if self.seq is not None or self.guard:
                raise Unsupported("list.%s on a list of symbolic length" % name)
            return f(self, *a, **k)
        g.__name__ = name
        return g
    for _n in ("insert", "remove", "pop", "sort", "index", "count", "clear", "reverse", "__delitem__", "__setitem__", "__contains__", "__len__",
               "__reversed__", "__mul__", "__rmul__", "__imul__", "__eq__", "__lt__", "__le__", "__gt__", "__ge__"):
        locals()[_n] = _guard(_n)
    del _n, _guard
    __hash__ = None

    def unread(self):
        if self.guard:
            raise Unsupported("the loop body reads a list it appends to")

    def __bool__(self):
        self.unread()
        if self.seq is not None:
            return bool(T.lb(self.seq.n > 0))
        return list.__len__(self) > 0

    def __iter__(self):
        self.unread()
        return iter(self.seq) if self.seq is not None else list.__iter__(self)

    def __getitem__(self, i):
        self.unread()
        if self.seq is None:
            r = list.__getitem__(self, i)
            return GList(r) if isinstance(i, slice) else r
        r = self.seq[i]
        return GList.of(r) if isinstance(i, slice) else r

    def append(self, x):
        if self.seq is None:
            return list.append(self, x)
        self.become(concat(self.seq, from_list([x])))

    def extend(self, xs):
        g = gen(xs)
        if self.guard and g is not None:
            raise Unsupported("a sequence of symbolic length appended in a loop")
        if self.seq is None and g is None:
            return list.extend(self, xs)
        if g is None:
            xs = builtins.list(xs)
            if not xs:
                return
        if self.seq is None and not list.__len__(self):
            return self.become(g.copy())
        self.become(concat(self.parts(), g if g is not None else from_list(xs)))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        self.unread()
        if not isinstance(o, list):
            return NotImplemented
        r = GList(o)
        r.extend(self)
        return r

    def copy(self):
        r = GList.of(self.seq.copy()) if self.seq is not None else GList(list.__iter__(self))
        r.guard = self.guard
        return r


# ------------------------------------------------------------------------------- built-in functions of generic worlds
class SList(list):
    def __new__(cls, x=()):
        g = gen(x)
        return GList.of(g.copy()) if g is not None else GList(x)


class STuple(tuple):
    def __new__(cls, x=()):
        if gen(x) is not None:
            raise Unsupported("tuple of symbolic length")
        return builtins.tuple(x)


def _len(x):
    g = gen(x)
    return g.n if g is not None else builtins.len(x)


def _range(*a):
    a = [T.lift_or_fail(x) if isinstance(x, Sym) else x for x in a]
    if any(isinstance(x, Sym) and x.op != "const" for x in a):
        lo, hi, step = (T.ZERO, T.lift_or_fail(a[0]), 1) if len(a) == 1 else (T.lift_or_fail(a[0]), T.lift_or_fail(a[1]), a[2] if len(a) > 2 else 1)
        if not same(step, 1):
            raise Unsupported("symbolic range with a step")
        n = T.add(hi, T.neg(lo))
        if not bool(T.lb(n > 0)):
            return builtins.range(0)
        return Seq(n, lambda i: T.add(lo, i))
    return builtins.range(*[int(x) if isinstance(x, Sym) else x for x in a])


def _enumerate(x, start=0):
    g = gen(x)
    if g is None:
        return builtins.enumerate(x, start)
    s = T.lift_or_fail(start)
    return Seq(g.n, lambda i: (T.add(s, i), g._at(i)))


def _zip(*xs, **kw):
    gs = [gen(x) for x in xs]
    if all(g is None for g in gs):
        return builtins.zip(*xs, **kw)
    if any(g is None for g in gs):
        raise Unsupported("zip of a list and a sequence of symbolic length")
    if any(not same(g.n, gs[0].n) for g in gs):
        raise Unsupported("zip of sequences of different length")
    return Seq(gs[0].n, lambda i: tuple(g._at(i) for g in gs))


def _reversed(x):
    g = gen(x)
    return builtins.reversed(x) if g is None else g[::-1]


def extremum(kind, x):
    """least / greatest element: an unknown number, the same for equal sequences"""
    g = gen(x)
    memo = K.__dict__.setdefault("extremes", {})
    if (kind, id(g.key)) not in memo:
        memo[kind, id(g.key)] = (K.real("%s of sequence %d" % (kind, len(memo))), g.key)
    return memo[kind, id(g.key)][0]


def _ext(kind, native):
    def f(*a, **kw):
        if len(a) == 1 and gen(a[0]) is not None:
            if kw:
                raise Unsupported("%s with keywords" % kind)
            return extremum(kind, a[0])
        return native(*a, **kw)
    return f


def _refuse(name, native):
    def f(*a, **kw):
        if any(gen(x) is not None for x in a):
            raise Unsupported("%s of a sequence of symbolic length" % name)
        return native(*a, **kw)
    return f


BUILTINS = {"len": _len, "range": _range, "enumerate": _enumerate, "zip": _zip, "reversed": _reversed, "list": SList, "tuple": STuple,
            "min": _ext("min", builtins.min), "max": _ext("max", builtins.max)}
for _n in ("sum", "any", "all", "sorted", "map", "filter", "set", "dict", "iter", "next"):
    if _n in ("set", "dict"):
        continue
    BUILTINS[_n] = _refuse(_n, getattr(builtins, _n))


# ------------------------------------------------------------------------------- NumPy functions of generic worlds
TOTAL = {"negative", "add", "subtract", "multiply", "square", "absolute", "sin", "cos", "exp"}


def install(np):
    """extends the NumPy contract to sequences of symbolic length"""
    d = np.__dict__
    old = {n: getattr(np, n) for n in ("linspace", "arange", "array", "asarray", "asanyarray", "copy", "min", "max", "amin", "amax", "append", "concatenate", "hstack",
                                         "vstack", "stack", "column_stack", "transpose")}

    def linspace(a, b, n=50, endpoint=True, **kw):
        s = T.lift_or_fail(n)
        if s.op == "const":
            return old["linspace"](a, b, n, endpoint, **kw)
        if kw or not endpoint:
            raise Unsupported("linspace keyword")
        a, b = T.lift_or_fail(a), T.lift_or_fail(b)
        if bool(T.lb(s <= 0)):
            return old["linspace"](a, b, 0)
        if bool(T.mkbool("==", s - 1)):
            return old["linspace"](a, b, 1)
        return Seq(s, lambda i: a + (b - a) * i / (s - 1))

    def arange(*a, **kw):
        if any(isinstance(x, Sym) and x.op != "const" for x in a):
            r = _range(*a)
            return r if isinstance(r, Seq) else _np.arange(0)
        return old["arange"](*a, **kw)

    def arr(r):
        return old["array"](r) if isinstance(r, (builtins.list, builtins.tuple)) else r

    def conv(name):
        def f(x, *a, **kw):
            g = gen(x)
            if g is not None:
                r = g.copy()
                r._at = lambda i: arr(g._at(i))
                return r
            if isinstance(x, Cols):
                return x
            if isinstance(x, (builtins.list, builtins.tuple)) and any(gen(y) is not None for y in x):
                rs = rows_of(x)
                if rs is None:
                    raise Unsupported("np.%s of sequences of symbolic length" % name)
                return Cols(rs)
            return old[name](x, *a, **kw)
        return f

    def transpose(x, *a, **kw):
        if isinstance(x, Cols) or gen(x) is not None:
            return (x if isinstance(x, Cols) else gen(x)).transpose(*a, **kw)
        return old["transpose"](x, *a, **kw)

    def stack(name):
        def f(xs, *a, **kw):
            ps = builtins.list(xs)
            if not any(isinstance(p, Cols) or gen(p) is not None for p in ps):
                return old[name](xs, *a, **kw)
            axis = kw.pop("axis", a[0] if a else 0) if name == "stack" else {"vstack": 0, "column_stack": 1}[name]
            if kw:
                raise Unsupported("np.%s with arguments" % name)
            if axis in (1, -1):
                return side_by_side(ps)
            rs = rows_of(ps)
            if rs is None or axis != 0:
                if name == "vstack" and axis == 0 and all(gen(p) is not None for p in ps):
                    r = None
                    for p in ps:
                        r = gen(p) if r is None else concat(r, gen(p))
                    return r
                raise Unsupported("np.%s of sequences of symbolic length" % name)
            return Cols(rs)
        return f

    def ext(name):
        def f(x, *a, **kw):
            if gen(x) is not None:
                if a or kw:
                    raise Unsupported("np.%s with arguments" % name)
                return extremum(name[-3:], x)
            return old[name](x, *a, **kw)
        return f

    def joined(name):
        def f(xs, *a, **kw):
            parts = [xs] + builtins.list(a[:1]) if name == "append" else builtins.list(xs)
            if all(gen(p) is None for p in parts):
                return old[name](xs, *a, **kw)
            axis = kw.pop("axis", a[0] if a and name != "append" else None)
            if kw or (axis is not None and name != "concatenate"):
                raise Unsupported("np.%s with arguments" % name)
            if axis in (1, -1) or name == "hstack" and any(gen(p) is not None and gen(p).element() != () for p in parts):
                return side_by_side(parts)
            if axis not in (None, 0):
                raise Unsupported("np.%s with arguments" % name)
            if name == "append" and any(gen(p) is not None and gen(p).element() != () for p in parts):
                raise Unsupported("np.append of rows")
            r = None
            for p in parts:
                g = gen(p)
                if g is None:
                    p = builtins.list(p)
                    if not p:
                        continue
                    g = from_list(p)
                r = g if r is None else concat(r, g)
            return r
        return f
    d.update(linspace=linspace, arange=arange, array=conv("array"), asarray=conv("asarray"), asanyarray=conv("asanyarray"), copy=conv("copy"),
             min=ext("min"), max=ext("max"), amin=ext("amin"), amax=ext("amax"), append=joined("append"), concatenate=joined("concatenate"), hstack=joined("hstack"),
             vstack=stack("vstack"), stack=stack("stack"), column_stack=stack("column_stack"), transpose=transpose)
    ops = {"negative": lambda x: -x, "square": lambda x: x * x}
    for n in ("sin", "cos", "exp", "negative", "square"):
        def wrap(f, n=n):
            def g(x, *a, **kw):
                s = gen(x)
                if s is None:
                    return f(x, *a, **kw)
                return s.map(ops.get(n) or (lambda v: f(v)))
            return g
        d[n] = wrap(getattr(np, n))
    two = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b}
    for n, op in two.items():
        def wrap2(f, op=op):
            def g(x, y, *a, **kw):
                if gen(x) is None and gen(y) is None:
                    return f(x, y, *a, **kw)
                if gen(x) is not None:
                    return gen(x)._two(y, op)
                return gen(y)._two(x, lambda b, a: op(a, b))
            return g
        d[n] = wrap2(getattr(np, n))


# ------------------------------------------------------------------------------- instrumentation
def _straight(body):
    """no jump out of the loop except continue, no scope declaration"""
    class V(ast.NodeVisitor):
        ok, depth = True, 0

        def no(self, n):
            self.ok = False
        visit_Return = visit_Yield = visit_YieldFrom = visit_Await = visit_Global = visit_Nonlocal = no

        def visit_Break(self, n):
            if not self.depth:
                self.ok = False

        def loop(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_For = visit_While = loop

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_FunctionDef
    v = V()
    for s in body:
        v.visit(s)
    return v.ok


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.n, self.fun = module, 0, []

    def visit_FunctionDef(self, n):
        self.fun.append(n.name)
        self.generic_visit(n)
        self.fun.pop()
        return n

    visit_ClassDef = visit_FunctionDef

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fun and isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.copy_location(ast.Call(ast.Name("__glist__", ast.Load()), [], []), n)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fun or n.orelse or not _straight(n.body):
            return n
        targets = _assigned([ast.Assign([n.target], ast.Constant(0))])
        names = [x for x in _assigned(n.body) if x not in targets and not x.startswith("__")]
        lp = "__for%d" % self.n
        self.n += 1
        loc = "%s:%s" % (self.module, ".".join(self.fun))
        pre, = ast.parse("%s = __for__(%r, %r, %r, 0)" % (lp, loc, tuple(names), tuple(targets))).body
        pre.value.args[3] = n.iter
        n.iter = ast.parse("%s.it()" % lp, mode="eval").body

        def hook(what, ns):
            call = "%s.%s(locals())" % (lp, what)
            return ast.parse("if %s.on:\n %s%s" % (lp, "(" + ", ".join(ns) + ",) = " if ns else "", call)).body
        n.body = hook("head", names) + n.body
        post = hook("leave", names + targets)
        for s in [pre] + post + n.body[:1]:
            ast.copy_location(s, n)
        return [pre, n] + post

    def comp(self, n):
        self.generic_visit(n)
        if not self.fun or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        f = ast.parse("lambda __acc, __x: [__acc.append(0) for __y in (__x,)]", mode="eval").body
        inner = f.body
        inner.elt.args[0] = n.elt
        inner.generators[0].target = g.target
        inner.generators[0].ifs = g.ifs
        loc = "%s:%s" % (self.module, ".".join(self.fun))
        call = ast.Call(ast.Name("__comp__", ast.Load()), [ast.Constant(loc), f, g.iter], [])
        if isinstance(n, ast.GeneratorExp):
            call = ast.Call(ast.Name("__lazy__", ast.Load()), [call], [])
        return ast.copy_location(call, n)
    visit_ListComp = visit_GeneratorExp = comp


def lazy(r):
    """a generator expression: a generic sequence stays one, anything else is an iterator"""
    return r if gen(r) is not None else iter(r)


def comp(loc, fn, it):
    acc = GList()
    if gen(it) is None:
        for x in it:
            fn(acc, x)
        return acc

    def env():
        e = {"__acc": acc}
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
            try:
                e[n] = c.cell_contents
            except ValueError:
                pass
        return e
    loop = For(K, loc + "<comp>", (), (), it, env)
    for x in loop.it():
        if loop.on:
            loop.head(env())
        fn(acc, x)
    if loop.on:
        loop.leave(env())
    return acc


# ------------------------------------------------------------------------------- state of the loop
def structure(v, leaves):
    """nested lists / tuples / arrays of numbers: shape and leaves, or None"""
    if isinstance(v, (bool, _np.bool_, str, bytes)) or v is None:
        return None
    t = T.lift(v)
    if t is not None:
        leaves.append(t)
        return "n"
    if gen(v) is not None:
        return None
    if isinstance(v, _np.ndarray):
        s = [structure(x, leaves) for x in v]
        return None if None in s else ("array", s)
    if isinstance(v, (list, tuple)):
        s = [structure(x, leaves) for x in v]
        return None if None in s else ("list" if isinstance(v, list) else "tuple", s)
    return None


def shape(s):
    return s if s == "n" else [shape(x) for x in s[1]]


def rebuild(s, leaves):
    if s == "n":
        return leaves.pop(0)
    xs = [rebuild(x, leaves) for x in s[1]]
    if s[0] == "tuple":
        return tuple(xs)
    if s[0] == "list":
        return xs
    r = _np.array(xs, dtype=object)
    return r


def package_object(v):
    return hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.startswith("einsteinpy")


def freeze(v, depth=3):
    g = gen(v)
    if g is not None:
        return ("g", id(v), id(g))
    if isinstance(v, Sym):
        return ("n", v.id)
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return ("c", v)
    if isinstance(v, _np.ndarray):
        return ("a", id(v), tuple(freeze(x) for x in v.reshape(-1)) if v.dtype == object else v.tobytes())
    if isinstance(v, (list, tuple)) and depth:
        return ("l", id(v), tuple(freeze(x, depth - 1) for x in (list.__iter__(v) if isinstance(v, list) else v)))
    if isinstance(v, dict):
        return ("d", id(v), tuple((str(a), freeze(b, depth - 1) if depth else id(b)) for a, b in v.items()))
    return ("o", id(v))


def sig(v):
    """shallow content of a mutable object the package's code could change, and its children; None for anything else"""
    if isinstance(v, GList) and v.seq is not None:
        return ("g", id(v.seq)), ()
    if isinstance(v, (list, set, frozenset)) and type(v).__module__ in ("builtins", __name__, "collections"):
        xs = builtins.list(list.__iter__(v)) if isinstance(v, list) else builtins.list(v)
        return ("l",) + builtins.tuple(sorted(map(id, xs)) if not isinstance(v, list) else map(id, xs)), xs
    if isinstance(v, tuple):
        return ("t",), v
    if isinstance(v, dict):
        return ("d",) + builtins.tuple((a if isinstance(a, (str, int, float, bool)) else id(a), id(b)) for a, b in v.items()), builtins.list(v.values())
    if isinstance(v, _np.ndarray):
        if v.dtype == object:
            return ("a", v.shape) + builtins.tuple(id(x) for x in v.reshape(-1)), builtins.list(v.reshape(-1)[:50])
        return ("a", v.shape, v.tobytes()), ()
    if package_object(v):
        d = vars(v)
        return ("o",) + builtins.tuple((a, id(b)) for a, b in d.items()), builtins.list(d.values())
    if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("einsteinpy"):
        cells = []
        for c in v.__closure__ or ():
            try:
                cells.append(c.cell_contents)
            except ValueError:
                cells.append(None)
        kids = cells + builtins.list(v.__defaults__ or ()) + builtins.list((v.__kwdefaults__ or {}).values()) + builtins.list(vars(v).values())
        return ("f",) + builtins.tuple(id(x) for x in kids), kids
    if isinstance(v, types.MethodType):
        return ("m",), (v.__self__, v.__func__)
    if isinstance(v, types.BuiltinMethodType) and v.__self__ is not None and not isinstance(v.__self__, types.ModuleType):
        return ("m",), (v.__self__,)
    if isinstance(v, functools.partial):
        return ("p",), (v.func,) + v.args + builtins.tuple(v.keywords.values())
    if isinstance(v, type) and v.__module__.startswith("einsteinpy"):
        d = {a: b for a, b in vars(v).items() if not a.startswith("__")}
        return ("c",) + builtins.tuple((a, id(b)) for a, b in d.items()), builtins.list(d.values())
    if hasattr(v, "__next__") and not isinstance(v, type):
        raise Unsupported("an iterator in reach of the loop")
    return None


def reach(env):
    """id -> (object, shallow content) of every mutable object in reach of the loop body: its names, the package's globals,
    closures, default arguments, class attributes and whatever these hold"""
    out = {}
    todo = [v for n, v in env.items() if not OWN.match(n)]
    for m in builtins.list(K.world.modules.values()):
        if m.__name__.startswith("einsteinpy"):
            g = {a: b for a, b in vars(m).items() if not a.startswith("__") and not isinstance(b, types.ModuleType)}
            out[id(m)] = (m, ("M",) + builtins.tuple((a, id(b)) for a, b in g.items()))
            todo += builtins.list(g.values())
    while todo:
        v = todo.pop()
        if isinstance(v, (Sym, str, int, float, complex, types.ModuleType, For)) or v is None or id(v) in out:
            continue
        s = sig(v)
        if s is not None:
            out[id(v)] = (v, s[0])
            todo += s[1]
    return out


def content(v):
    if isinstance(v, types.ModuleType):
        return ("M",) + builtins.tuple((a, id(b)) for a, b in vars(v).items() if not a.startswith("__") and not isinstance(b, types.ModuleType))
    return sig(v)[0]


OWN = re.compile(r"^(_\w+?)?__(t|loop\d+|for\d+)$")       # names of the instrumentation (mangled in classes)


def walk(env, skip=()):
    """path -> (owner, attribute, value) of everything the body can reach by name"""
    out, seen = {}, set()

    def obj(path, v, depth):
        if id(v) in seen:
            return
        seen.add(id(v))
        for a, x in vars(v).items():
            out[path + "." + a] = (v, a, x)
            if depth and package_object(x):
                obj(path + "." + a, x, depth - 1)
    for name, v in env.items():
        if name in skip or OWN.match(name) or isinstance(v, _Unbound):
            continue
        out[name] = (None, name, v)
        if package_object(v):
            obj(name, v, 2)
    return out


def symbols(t, out, seen):
    if t.id in seen:
        return out
    seen.add(t.id)
    if t.op == "var":
        out.add(t.args[0])
    for a in t.args:
        if isinstance(a, Sym):
            symbols(a, out, seen)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Sym):
                    symbols(b, out, seen)
    return out


def subst_bool(c, m):
    if c.rel in ("true", "false"):
        return c
    if c.rel in ("<", "<=", "==", "!="):
        return T.mkbool(c.rel, T.subst(c.a, m))
    if c.rel == "not":
        return T.bnot(subst_bool(c.a, m))
    return (T.band if c.rel == "and" else T.bor)(subst_bool(c.a, m), subst_bool(c.b, m))


def bool_symbols(c, out):
    for x in (c.a, c.b):
        if isinstance(x, Sym):
            symbols(x, out, set())
        elif isinstance(x, SymBool):
            bool_symbols(x, out)
    return out


class For:
    def __init__(self, k, loc, names, targets, it, env=None):
        self.k, self.loc, self.names, self.targets, self.iterable, self.env = k, loc, names, targets, it, env
        self.leaf = {}
        g = gen(it)
        self.seq = g
        self.on = g is not None and g.n.op != "const"
        self.mode = None

    # -- iteration
    def it(self):
        if not self.on:
            yield from self.iterable
            return
        k, n = self.k, self.seq.n
        if not bool(T.lb(n > 0)):
            self.on = False
            return
        k.assume(n >= 1)
        self.engage()
        if self.mode == "exit":
            return
        self.start = (len(k.path), len(k.decls))
        if self.mode == "first":
            self.i = T.ZERO
        else:
            self.i = k.real("i@" + self.id, "nonneg")
            k.assume(self.i < n)
        self.i_path, self.i_decls = len(k.path), len(k.decls)
        if k.loop_hook:
            k.loop_hook(self.loc, self.id, self.i)
        x = self.seq.at(self.i)
        if k.__dict__.get("in_loop"):
            raise Unsupported("nested loops over sequences of symbolic length")
        k.in_loop = True
        self.ready = False
        yield x
        k.in_loop = False
        if not self.ready:
            raise Unsupported("loop body was not entered")
        self.tail(self.env() if self.env else sys._getframe(1).f_locals)

    def engage(self):
        k = self.k
        n = sum(1 for x in k.loop_log if x == self.loc)
        k.loop_log.append(self.loc)
        self.id = "%s#%d" % (self.loc.split(".")[-1], n)
        self.key = ("for", self.loc, n, tuple(k.taken))
        s = self.sum = k.loop_sums.setdefault(self.key, {"state": {}, "lists": set(), "local": set(), "rebound": set(), "delta": {}, "next": {}, "ways": [], "kinds": {}})
        if k.choose():
            self.mode = "first"
        elif k.choose():
            self.mode = "infer"
        elif k.choose():
            self.mode = "preserve"
        else:
            self.mode = "exit"

    # -- head of the body
    def head(self, env):
        self.ready = True
        cur = {n: env[n] if n in env and n not in self.sum["local"] and (isinstance(env[n], GList) or structure(env[n], []) is not None) else UNBOUND for n in self.names}
        if self.mode != "first":
            self.havoc(env, cur)
            w = walk({**env, **cur}, self.targets)
            for p in self.sum["lists"]:
                if p not in w or not isinstance(w[p][2], GList):
                    raise Unsupported("the loop appends to %s" % p)
                w[p][2].guard = True
        self.env_in = {**env, **cur}
        self.before = walk(self.env_in, self.targets)
        self.frozen = {p: freeze(v) for p, (_, _, v) in self.before.items()}
        self.reached = reach(self.env_in)
        self.contents = {p: builtins.list(list.__iter__(v)) for p, (_, _, v) in self.before.items() if isinstance(v, list) and gen(v) is None}
        return tuple(cur[n] for n in self.names)

    def v0(self, env):
        """the state before the loop, by path"""
        w = walk(env, self.targets)
        out = {}
        for p in self.sum["state"]:
            if p not in w:
                raise Unsupported("loop state %s appears in the loop" % p)
            leaves = []
            if structure(w[p][2], leaves) is None:
                raise Unsupported("loop state %s is not made of numbers" % p)
            out[p] = leaves
        return out, w

    def name(self, p, j):
        return "%s[%d]@%s" % (p, j, self.id)

    def havoc(self, env, cur):
        k = self.k
        init, w = self.v0(env)
        self.init = init
        self.leaf = {}
        for p, st in self.sum["state"].items():
            vals = []
            for j, v in enumerate(init[p]):
                if self.mode == "infer":
                    t = k.real("any " + self.name(p, j))
                else:
                    t = self.closed(p, j, v, self.i)
                self.leaf[p, j] = t
                vals.append(t)
            self.put(w, p, rebuild(st, vals), cur)

    def put(self, w, p, value, cur):
        owner, attr, _ = w[p]
        if owner is not None:
            setattr(owner, attr, value)
        elif attr in self.names:
            cur[attr] = value
        else:
            raise Unsupported("loop changes %s" % p)

    def closed(self, p, j, v, i):
        d = self.sum["delta"].get((p, j))
        if d is not None:
            return T.add(v, T.mul(i, d))
        return T.app(self.name(p, j), [i])

    # -- end of the body
    def tail(self, env):
        k, s = self.k, self.sum
        after = walk(env, self.targets)
        new, changed = {}, {}
        for p in set(self.before) | set(after):
            if p not in after:
                raise Unsupported("the loop body removes %s" % p)
            owner, attr, v = after[p]
            if p not in self.before:
                if owner is None:
                    continue            # a name local to the body
                raise Unsupported("the loop body adds %s" % p)
            old = self.before[p][2]
            if freeze(v) == self.frozen[p]:
                continue
            if isinstance(v, GList) and gen(v) is None and p in self.contents and (v is old or isinstance(old, GList)):
                o = self.contents[p]
                if list.__len__(v) > len(o) and all(a is b for a, b in zip(list.__iter__(v), o)):
                    new[p] = [x for x in builtins.list(list.__iter__(v))[len(o):]]
                    if v is not old:
                        if owner is not None:
                            raise Unsupported("the loop body replaces %s" % p)
                        s["rebound"].add(p)
                    continue
            mine = owner is None and attr in self.names
            if mine and isinstance(old, _Unbound):
                continue
            lo, ln = [], []
            so, sn = structure(old, lo), structure(v, ln)
            if so is None or sn is None or shape(so) != shape(sn) or v is old:
                if mine and v is not old and self.mode != "preserve":
                    s["local"].add(p)           # a name of its own that happened to have a value before the loop
                    s["state"].pop(p, None)
                    continue
                raise Unsupported("the loop body changes %s" % p)
            if mine and self.mode == "infer" and self.foreign(ln):
                s["local"].add(p)
                s["state"].pop(p, None)
                continue
            changed[p] = (sn, ln)
        told = {id(self.before[p][2]) for p in new}
        for v, old in self.reached.values():
            if id(v) in told or content(v) == old:
                continue
            if package_object(v):
                now = {a: b for a, b in content(v)[1:]}
                then = {a: b for a, b in old[1:]}
                mine = {self.before[p][1] for p in changed if self.before[p][0] is v}
                if set(now) == set(then) and all(now[a] == then[a] or a in mine for a in now):
                    continue
            raise Unsupported("the loop body changes an object (%s)" % type(v).__name__)
        ways = {}
        for p, items in new.items():
            ways[p] = []
            for x in items:
                leaves = []
                st = structure(x, leaves)
                if st is None:
                    raise Unsupported("the loop body appends %s" % type(x).__name__)
                if self.mode == "preserve":
                    self.own(leaves)
                ways[p].append((st, leaves))
        if self.mode == "first":
            for p, (sn, _) in changed.items():
                if p not in s["local"] and shape(s["state"].setdefault(p, sn)) != shape(sn):
                    raise Unsupported("shape of %s depends on the path" % p)
            s["lists"] |= set(new)
            raise PathEnd()
        if self.mode == "infer":
            # something the first iteration does not change; the runs before this one did not know, but they are inferences too
            late = set(changed) - set(s["state"]) - s["local"]
            if late:
                for p in late:
                    s["state"][p] = changed[p][0]
                    self.init[p] = [None] * len(changed[p][1])
                for p in s["state"]:
                    for j in range(len(self.init[p])):
                        s["delta"][p, j], s["kinds"][p, j] = None, True
            s["lists"] |= set(new)
        elif set(changed) - set(s["state"]) or set(new) - s["lists"]:
            raise Unsupported("%s changes on some ways through the loop only" % sorted((set(changed) - set(s["state"])) | (set(new) - s["lists"])))
        for p in s["state"]:
            if p not in changed:
                changed[p] = (s["state"][p], [self.leaf[p, j] for j in range(len(self.init[p]))])
        if self.mode == "infer":
            hav = set(self.leaf.values())
            for p, (_, ln) in changed.items():
                for j, t in enumerate(ln):
                    if p not in s["state"] or (p, j) not in self.leaf:
                        continue
                    d = T.add(t, T.neg(self.leaf[p, j]))
                    ok = quiet(lambda: all(same(T.diff(d, h), 0) for h in hav))
                    if ok:
                        d = T.subst(d, {h: self.init[q][m] for (q, m), h in self.leaf.items()})
                        bad = symbols(d, set(), set()) & {x[0] for x in k.decls[self.start[1]:]}
                        ok = not bad
                    key = (p, j)
                    if not ok or (key in s["kinds"] and s["delta"].get(key) is not None and not same(s["delta"][key], d)):
                        s["delta"][key] = None
                    elif key not in s["kinds"]:
                        s["delta"][key] = d
                    s["kinds"][key] = True
            from .loops import PathSkip
            raise PathSkip()
        nxt = {}
        for p, (_, ln) in changed.items():
            self.own(ln)
            for j, t in enumerate(ln):
                d = s["delta"].get((p, j))
                if d is not None:
                    k.equal("loop invariant of %s preserved" % self.loc.split(".")[-1], t, T.add(self.init[p][j], T.mul(T.add(self.i, T.ONE), d)))
                nxt[p, j] = t
                old = s["next"].setdefault((p, j), t)
                if old is not None and not same(old, t):
                    s["next"][p, j] = None              # depends on the way through the body
        facts, conds = [], []
        for q in range(self.i_path, len(k.path)):
            (conds if q in k.decided else facts).append(k.path[q])
        mine = {x[0] for x in k.decls[self.i_decls:]}
        for c in conds:
            if bool_symbols(c, set()) & mine:
                raise Unsupported("the loop body branches on a value of its own")
        facts = [c for c in facts if not bool_symbols(c, set()) & mine]
        s["ways"].append({"conds": conds, "facts": facts, "new": ways, "next": nxt})
        s["i"] = self.i
        raise PathEnd()

    def foreign(self, leaves):
        mine = {x[0] for x in self.k.decls[self.i_decls:]} - {t.args[0] for t in self.leaf.values() if t.op == "var"}
        return any(symbols(t, set(), set()) & mine for t in leaves)

    def own(self, leaves):
        """no symbol introduced inside the body may escape: it would be shared by all iterations"""
        if self.foreign(leaves):
            raise Unsupported("a value introduced in the loop body leaves it")

    # -- after the loop
    def leave(self, env):
        k, s = self.k, self.sum
        if self.mode != "exit":
            raise Unsupported("loop left early")
        if "i" not in s:
            raise Unsupported("loop body not summarised")
        init, w = self.v0(env)
        self.init = init
        N = self.seq.n
        cur = {n: UNBOUND for n in self.names + self.targets}
        last = T.add(N, T.const(-1))
        for p, st in s["state"].items():
            vals = []
            for j, v in enumerate(init[p]):
                d = s["delta"].get((p, j))
                nxt = s["next"][p, j]
                vals.append(T.add(v, T.mul(N, d)) if d is not None else T.app(self.name(p, j), [N]) if nxt is None else quiet(lambda: self.inst(nxt, last)))
            self.put(w, p, rebuild(st, vals), cur)
        groups = {}
        for p in sorted(s["lists"]):
            owner, attr, lst = w[p]
            counts = tuple(len(x["new"].get(p, ())) for x in s["ways"])
            if not isinstance(lst, GList):
                raise Unsupported("the loop appends to %s" % p)
            if all(c == 1 for c in counts):
                q = Seq(N, lambda j, p=p: self.item(p, j, range(len(s["ways"]))))
            elif all(c in (0, 1) for c in counts):
                if counts not in groups:
                    gid = "%s.%d" % (self.id, len(groups))
                    m = k.real("m@" + gid, "nonneg")
                    k.assume(m <= N)
                    groups[counts] = (gid, m, bool(T.lb(m > 0)))
                    k.assume(m >= 1 if groups[counts][2] else T.mkbool("==", m))      # lengths are integers
                gid, m, some = groups[counts]
                if not some:
                    m = T.ZERO
                keep = [x for x, c in enumerate(counts) if c]
                q = Seq(m, lambda j, p=p, gid=gid, keep=keep: self.item(p, self.sigma(gid, j), keep, kept=True),
                        keeps=lambda t, counts=counts: self.kept(T.lift_or_fail(t), counts))
            else:
                raise Unsupported("the loop appends several elements to %s" % p)
            if p in s["rebound"]:
                lst = lst.copy()
            if q.n is not T.ZERO:
                lst.extend(q)
            else:
                lst.dropped = q
            if owner is None and attr in cur:
                cur[attr] = lst
        k.loops.append(self)
        return tuple(cur[n] for n in self.names + self.targets)

    def sigma(self, gid, j):
        t = T.app("sigma@" + gid, [j])
        self.fact(t >= 0)
        self.fact(t < self.seq.n)
        return t

    def fact(self, c):
        c = T.lb(c)
        if c is T.TRUE:
            return
        for x in self.k.path:
            if x is c or (x.rel == c.rel and x.a is c.a and x.b is c.b):
                return
        self.k.assume(c)

    def inst(self, t, x):
        """a term of the arbitrary iteration at iteration x; the opaque state of iteration 0 is the state before the loop"""
        m = {self.sum["i"]: x}
        if x.op == "const" and x.args[0] == 0:
            for p, leaves in self.init.items():
                for j, v in enumerate(leaves):
                    m[T.app(self.name(p, j), [self.sum["i"]])] = v
        return T.subst(t, m)

    def inst_bool(self, c, x):
        if c.rel in ("true", "false"):
            return c
        if c.rel in ("<", "<=", "==", "!="):
            return T.mkbool(c.rel, self.inst(c.a, x))
        if c.rel == "not":
            return T.bnot(self.inst_bool(c.a, x))
        return (T.band if c.rel == "and" else T.bor)(self.inst_bool(c.a, x), self.inst_bool(c.b, x))

    def way(self, x, among, known=False):
        """the way through the body taken by iteration x"""
        ws = self.sum["ways"]
        among = builtins.list(among)
        for n, y in enumerate(among):
            if known and n == len(among) - 1:
                for c in ws[y]["conds"]:
                    self.fact(self.inst_bool(c, x))
                return y
            if all(bool(self.inst_bool(c, x)) for c in ws[y]["conds"]):
                return y
        from .ctx import Infeasible
        raise Infeasible()

    def item(self, p, x, among, kept=False):
        among = builtins.list(among)
        first = self.sum["ways"][among[0]]["new"][p][0]
        if len(among) > 1 and not kept and all(shape(y[0]) == shape(first[0]) and all(a is b for a, b in zip(y[1], first[1])) for y in (self.sum["ways"][z]["new"][p][0] for z in among)):
            return rebuild(first[0], [self.inst(t, x) for t in first[1]])
        y = self.way(x, among, known=True)
        w = self.sum["ways"][y]
        for c in w["facts"]:
            self.fact(self.inst_bool(c, x))
        st, leaves = w["new"][p][0]
        return rebuild(st, [self.inst(t, x) for t in leaves])

    def kept(self, t, counts):
        y = self.way(t, range(len(counts)))
        return bool(counts[y])

    # -- for harnesses: the opaque state of iteration x + 1 in terms of iteration x
    def unfold(self, t, x):
        x, t = T.lift_or_fail(x), T.lift_or_fail(t)
        names = {self.name(p, j): (p, j) for p, j in self.sum["next"] if self.sum["delta"].get((p, j)) is None}
        m, seen = {}, set()

        def find(u):
            if u.id in seen:
                return
            seen.add(u.id)
            if u.op == "app" and u.args[0] in names and same(u.args[2], T.add(x, T.ONE)):
                nxt = self.sum["next"][names[u.args[0]]]
                if nxt is None:
                    nxt = self.sum["ways"][self.way(x, range(len(self.sum["ways"])))]["next"][names[u.args[0]]]
                m[u] = quiet(lambda: self.inst(nxt, x))
            for a in u.args:
                if isinstance(a, Sym):
                    find(a)
        find(t)
        return quiet(lambda: T.subst(t, m))


class While(For):
    """a `while` loop whose condition is an inequality affine in the iteration: same rule, N the first index at which it fails"""

    def __init__(self, k, loc, names):
        For.__init__(self, k, loc, names, (), None)
        self.on, self.mode = True, "entry"

    def head(self, env):
        if self.mode in ("entry", "native", "exit"):
            return tuple(env.get(n, UNBOUND) for n in self.names)
        return For.head(self, env)

    def again(self, t):
        if self.mode != "entry":
            return False
        if not isinstance(t, SymBool) or t is T.TRUE or t is T.FALSE or not bool(t):
            self.mode = "native"
            self.value = False if isinstance(t, SymBool) and t is not T.TRUE else None
            return False
        k = self.k
        self.engage()
        if self.mode != "exit":
            if k.in_loop:
                raise Unsupported("nested loops over sequences of symbolic length")
            k.in_loop = True
            self.start = (len(k.path), len(k.decls))
            self.i = T.ZERO if self.mode == "first" else k.real("i@" + self.id, "nonneg")
            self.i_path, self.i_decls = len(k.path), len(k.decls)
        return True

    def test(self, t):
        k = self.k
        if self.mode == "native":
            if self.value is not None:
                v, self.value = self.value, None
                return v
            return bool(t)
        if self.mode == "exit":
            return False
        if not isinstance(t, SymBool) or t.rel not in ("<", "<="):
            raise Unsupported("loop condition is not an inequality")
        if self.mode != "first":
            d = T.diff(t.a, self.i)
            if self.mode == "preserve":
                if not same(T.diff(d, self.i), 0):
                    raise Unsupported("loop condition is not affine in the iteration")
                k.true("loop of %s terminates" % self.loc.split(".")[-1], d > 0)
                self.sum["test"] = (self.i, t)
            k.assume(t)
            self.i_path = len(k.path)
        return True

    def tail(self, env):
        if self.mode == "native":
            return
        self.k.in_loop = False
        For.tail(self, env)

    def leave(self, env):
        k = self.k
        if self.mode in ("entry", "native"):
            return tuple(env.get(n, UNBOUND) for n in self.names)
        if "test" not in self.sum:
            raise Unsupported("loop body not summarised")
        i, t = self.sum["test"]
        bound = quiet(lambda: T.neg(T.subst(t.a, {i: T.ZERO})))
        if t.rel == "<" and same(T.diff(t.a, i), 1) and any(same(bound, x) for x in k.lengths):
            N = bound
        else:
            N = k.real("N@" + self.id, "pos")
            k.assume(N >= 1)
            at = lambda x: T.mkbool(t.rel, quiet(lambda: T.subst(t.a, {i: x})))
            k.assume(T.bnot(at(N)))
            k.assume(at(N - 1))
        self.seq = Seq(N, None)
        return For.leave(self, env)
