"""numpy as seen by code under symbolic execution: object arrays of exact terms."""
import numpy as _np
import types
import builtins
from . import terms as T
from .terms import Sym, SymBool, Unsupported


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def is_q(x):
    return hasattr(x, "_is_shim_quantity")


def exact(x):
    """python/numpy number -> exact Sym, leaves others"""
    if isinstance(x, (Sym, SymBool)):
        return x
    r = T.lift(x)
    return x if r is None else r


OPERATOR = {"reciprocal": lambda x: 1 / x, "negative": lambda x: -x, "absolute": abs, "square": lambda x: x * x}


def foreign(f):
    """objects that are not numbers: NumPy calls their method of the ufunc's name, or the Python operator where there is one"""
    def h(*args):
        if len(args) == 1 and f.__name__ in OPERATOR and not isinstance(args[0], (Sym, SymBool, complex)) and T.lift(args[0]) is None:
            return OPERATOR[f.__name__](args[0])
        if len(args) == 1 and not isinstance(args[0], (Sym, SymBool, complex)) and T.lift(args[0]) is None:
            m = getattr(args[0], f.__name__, None)
            if m is None:
                raise TypeError("loop of ufunc does not support argument 0 of type %s which has no callable %s method" % (type(args[0]).__name__, f.__name__))
            return m()
        return f(*args)
    return h


def elementwise(f):
    f_, f = f, None

    def g(x, *rest, **kw):
        f = named(f_.__name__, foreign(f_))
        if kw.pop("out", None) is not None or kw.pop("where", None) is not None:
            raise Unsupported("ufunc keyword")
        args = (x,) + rest
        if any(is_q(a) for a in args):
            return quantity_ufunc(f, args)
        if any(isinstance(a, (_np.ndarray, list, tuple)) for a in args):
            arrs = [_np.asarray(a, dtype=object) for a in args]
            r = _np.frompyfunc(lambda *z: f(*[exact(q) for q in z]), len(arrs), 1)(*arrs)
            return r
        return f(*[exact(a) for a in args])
    return g


def quantity_ufunc(f, args):
    name = f.__name__
    q = args[0]
    if name in ("sin", "cos", "tan"):
        return q.elementwise(f, q.angle_value())
    if name == "sqrt":
        return q ** T.const("1/2")
    if name in ("exp", "log"):
        return q.elementwise(f, q.dimensionless_value())
    if name in ("absolute",):
        return abs(q)
    if name == "square":
        return q * q
    raise Unsupported("ufunc %s of a quantity" % name)


def _sin(x):
    return T.fn("sin", x)


def _cos(x):
    return T.fn("cos", x)


def _tan(x):
    # no binary64 number is an exact zero of cos, so tan is always defined on machine inputs
    hook, Sym.on_domain = Sym.on_domain, None
    try:
        return T.div(T.fn("sin", x), T.fn("cos", x))
    finally:
        Sym.on_domain = hook


def _exp(x):
    return T.fn("exp", x)


def _log(x):
    return T.fn("log", x)


def _sqrt(x):
    return T.sqrt(x)


def named(n, f):
    f.__name__ = n
    return f


def arr(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, types.GeneratorType) or isinstance(x, (map, filter, zip)):
        raise Unsupported("array of iterator")
    if isinstance(x, (list, tuple)) and any(is_q(y) for y in x):
        raise Unsupported("array of quantities")
    if dtype in (int, bool, _np.int64, _np.int32, "int", "bool", _np.bool_) and not has_sym(x):
        return _np.array(x, dtype=dtype, ndmin=ndmin)
    r = _np.array(x, dtype=object, ndmin=ndmin) if (has_sym(x) or True) else None
    if dtype is None and not has_sym(x):
        plain = _np.array(x, ndmin=ndmin)
        if plain.dtype.kind in "biUS":
            return plain
    if r.dtype == object:
        flat = r.reshape(-1)
        for i in range(flat.size):
            v = flat[i]
            if isinstance(v, (bool, _np.bool_)):
                continue
            l = T.lift(v)
            if l is not None:
                flat[i] = l
        r = flat.reshape(r.shape)
    return r


def filled(shape, v, dtype):
    if dtype in (int, bool, _np.int64, _np.int32, "int", "bool", _np.bool_):
        return _np.full(shape, v, dtype=dtype)
    if isinstance(shape, Sym):
        shape = int(shape)
    r = _np.empty(shape, dtype=object)
    r.fill(exact(v))
    return r


class LinAlg:
    LinAlgError = _np.linalg.LinAlgError
    inv_hook = None

    def __getattr__(self, n):
        raise Unsupported("numpy.linalg." + n)

    @staticmethod
    def det(m):
        return det(_np.asarray(m, dtype=object))

    @staticmethod
    def inv(m):
        if is_q(m):
            raise Unsupported("inverse of quantity")
        m = _np.asarray(m, dtype=object)
        if m.shape != (m.shape[0],) * 2:
            raise Unsupported("stacked inverse")
        return inverse(m)

    @staticmethod
    def norm(x, *a, **k):
        if a or k:
            raise Unsupported("norm arguments")
        s = T.ZERO
        for v in _np.asarray(x, dtype=object).reshape(-1):
            s = s + exact(v) * v
        return T.sqrt(s)

    @staticmethod
    def solve(a, b):
        return inverse(_np.asarray(a, dtype=object)) @ _np.asarray(b, dtype=object)


def _zero(x):
    x = exact(x)
    return isinstance(x, Sym) and x is T.ZERO


def det(m):
    n = m.shape[0]
    if n == 1:
        return exact(m[0, 0])
    # expand along the row with most zeros
    best = max(range(n), key=lambda i: sum(_zero(m[i, j]) for j in range(n)))
    r = T.ZERO
    rows = [i for i in range(n) if i != best]
    for j in range(n):
        if _zero(m[best, j]):
            continue
        cols = [k for k in range(n) if k != j]
        d = det(m[_np.ix_(rows, cols)])
        t = exact(m[best, j]) * d
        r = r + t if (best + j) % 2 == 0 else r - t
    return r


def inverse(m):
    n = m.shape[0]
    if n > 5:
        raise Unsupported("large inverse")
    # block decomposition by connectivity keeps expressions small
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and not (_zero(m[i, j]) and _zero(m[j, i])):
                comp[find(i)] = find(j)
    r = filled((n, n), 0, float)
    for root in set(find(i) for i in range(n)):
        idx = [i for i in range(n) if find(i) == root]
        b = m[_np.ix_(idx, idx)]
        k = len(idx)
        if k == 1:
            r[idx[0], idx[0]] = T.ONE / exact(b[0, 0])
            continue
        d = det(b)
        for p in range(k):
            for q in range(k):
                rows = [x for x in range(k) if x != q]
                cols = [x for x in range(k) if x != p]
                c = det(b[_np.ix_(rows, cols)])
                if (p + q) % 2:
                    c = -c
                r[idx[p], idx[q]] = c / d
    return r


def close(a, b, rtol=1e-05, atol=1e-08, **kw):
    a, b, rtol, atol = exact(a), exact(b), exact(rtol), exact(atol)
    d = a - b
    bound = atol + rtol * abs(b)
    return T.band(T.lb(d <= bound), T.lb(-d <= bound))


def allclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    A, B = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    r = T.TRUE
    for x, y in zip(A.reshape(-1), B.reshape(-1)):
        r = T.band(r, close(x, y, rtol, atol))
    return r


def isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
        return _np.frompyfunc(lambda x, y: bool(close(x, y, rtol, atol)), 2, 1)(
            _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)).astype(bool)
    return close(a, b, rtol, atol)


def linspace(a, b, n=50, endpoint=True, **kw):
    if kw:
        raise Unsupported("linspace keyword")
    n = int(n)
    a, b = exact(a), exact(b)
    d = (n - 1) if endpoint else n
    out = filled((n,), 0, float)
    for i in range(n):
        out[i] = a if d == 0 else a + (b - a) * T.const("%d/%d" % (i, d))
    return out


def arange(*a, **k):
    if any(isinstance(exact(x), Sym) and exact(x).op != "const" for x in a):
        raise Unsupported("symbolic arange")
    a = [x.args[0] if isinstance(x, Sym) else T.simplest(x) if isinstance(x, float) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return _np.arange(*a, **k)
    from fractions import Fraction
    import math
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    n = max(0, math.ceil(Fraction(stop - start) / Fraction(step)))
    return arr([T.const(Fraction(start) + i * Fraction(step)) for i in range(n)])


def _max2(a, b):
    a, b = exact(a), exact(b)
    return a if bool(a >= b) else b


def _min2(a, b):
    a, b = exact(a), exact(b)
    return a if bool(a <= b) else b


def red(f2):
    def g(x, axis=None, **kw):
        if axis is not None or kw:
            raise Unsupported("reduction keyword")
        it = list(_np.asarray(x, dtype=object).reshape(-1))
        r = exact(it[0])
        for v in it[1:]:
            r = f2(r, v)
        return r
    return g


def where(c, *a):
    if not a:
        if isinstance(c, (bool, SymBool)):
            return _np.where(bool(c))
        c = _np.asarray(c)
        if c.dtype == object:
            c = _np.frompyfunc(bool, 1, 1)(c).astype(bool)
        return _np.where(c)
    x, y = a
    if isinstance(c, (bool, _np.bool_, SymBool)):
        return x if bool(c) else y
    return _np.frompyfunc(lambda c, x, y: x if bool(c) else y, 3, 1)(
        _np.asarray(c, dtype=object), _np.asarray(x, dtype=object), _np.asarray(y, dtype=object))


def _sign(x):
    if bool(x > 0):
        return T.ONE
    return -T.ONE if bool(x < 0) else T.ZERO


def isreal(x):
    if isinstance(x, _np.ndarray):
        return _np.ones(x.shape, dtype=bool)
    return not isinstance(x, complex)


class F64(float):
    """np.float64 & co: identity on terms"""
    def __new__(cls, x=0):
        if isinstance(x, (Sym,)):
            return x
        return exact(_np.float64(x))


class NP(types.ModuleType):
    pi = T.PI
    e = T.EULER
    float64 = F64
    float32 = F64
    double = F64
    ndarray = _np.ndarray
    number = _np.number
    integer = _np.integer
    floating = _np.floating
    newaxis = None
    inf = float("inf")
    nan = float("nan")
    int64 = _np.int64
    int32 = _np.int32
    bool_ = _np.bool_
    linalg = LinAlg()
    sin = staticmethod(elementwise(named("sin", _sin)))
    cos = staticmethod(elementwise(named("cos", _cos)))
    tan = staticmethod(elementwise(named("tan", _tan)))
    exp = staticmethod(elementwise(named("exp", _exp)))
    log = staticmethod(elementwise(named("log", _log)))
    sqrt = staticmethod(elementwise(named("sqrt", _sqrt)))
    cbrt = staticmethod(elementwise(named("cbrt", lambda x: x.cbrt())))
    sinh = staticmethod(elementwise(named("sinh", lambda x: x.sinh())))
    cosh = staticmethod(elementwise(named("cosh", lambda x: x.cosh())))
    tanh = staticmethod(elementwise(named("tanh", lambda x: x.sinh() / x.cosh())))
    arcsin = staticmethod(elementwise(named("arcsin", lambda x: T.fn("asin", x))))
    arccos = staticmethod(elementwise(named("arccos", lambda x: T.fn("acos", x))))
    arctan = staticmethod(elementwise(named("arctan", lambda x: T.fn("atan2", x, T.ONE))))
    arctan2 = staticmethod(elementwise(named("arctan2", lambda y, x: T.fn("atan2", y, x))))
    hypot = staticmethod(elementwise(named("hypot", lambda x, y: T.sqrt(x * x + y * y))))
    square = staticmethod(elementwise(named("square", lambda x: x * x)))
    reciprocal = staticmethod(elementwise(named("reciprocal", lambda x: T.ONE / x)))
    abs = staticmethod(elementwise(named("absolute", lambda x: abs(x))))
    absolute = abs
    fabs = abs
    sign = staticmethod(elementwise(named("sign", _sign)))
    power = staticmethod(elementwise(named("power", lambda x, y: x ** y)))
    float_power = power
    add = staticmethod(elementwise(named("add", lambda x, y: x + y)))
    subtract = staticmethod(elementwise(named("subtract", lambda x, y: x - y)))
    multiply = staticmethod(elementwise(named("multiply", lambda x, y: x * y)))
    divide = staticmethod(elementwise(named("divide", lambda x, y: x / y)))
    true_divide = divide
    negative = staticmethod(elementwise(named("negative", lambda x: -x)))
    deg2rad = staticmethod(elementwise(named("deg2rad", lambda x: x * T.PI / 180)))
    radians = deg2rad
    rad2deg = staticmethod(elementwise(named("rad2deg", lambda x: x * 180 / T.PI)))
    degrees = rad2deg
    maximum = staticmethod(elementwise(named("maximum", _max2)))
    minimum = staticmethod(elementwise(named("minimum", _min2)))
    isnan = staticmethod(elementwise(named("isnan", lambda x: False)))
    isfinite = staticmethod(elementwise(named("isfinite", lambda x: True)))
    isinf = staticmethod(elementwise(named("isinf", lambda x: False)))
    clip = staticmethod(elementwise(named("clip", lambda x, a, b: _min2(_max2(x, a), b))))
    max = staticmethod(red(_max2))
    min = staticmethod(red(_min2))
    amax = max
    amin = min
    array = staticmethod(arr)
    linspace = staticmethod(linspace)
    arange = staticmethod(arange)
    where = staticmethod(where)
    isreal = staticmethod(isreal)
    allclose = staticmethod(allclose)
    isclose = staticmethod(isclose)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, _np.ndarray):
            return x
        return arr(x, dtype)

    asanyarray = asarray

    @staticmethod
    def copy(x):
        return _np.array(x, copy=True)

    @staticmethod
    def zeros(shape, dtype=float, **k):
        return filled(shape, 0, dtype)

    @staticmethod
    def ones(shape, dtype=float, **k):
        return filled(shape, 1, dtype)

    @staticmethod
    def empty(shape, dtype=float, **k):
        return filled(shape, 0, dtype)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        return filled(shape, v, dtype or float)

    @staticmethod
    def zeros_like(x, dtype=None, **k):
        return filled(_np.shape(x), 0, dtype or float)

    @staticmethod
    def ones_like(x, dtype=None, **k):
        return filled(_np.shape(x), 1, dtype or float)

    empty_like = zeros_like

    @staticmethod
    def eye(n, m=None, **k):
        r = filled((n, m or n), 0, float)
        for i in range(builtins.min(n, m or n)):
            r[i, i] = T.ONE
        return r

    @staticmethod
    def identity(n, **k):
        return NP.eye(n)

    @staticmethod
    def diag(x, **k):
        x = _np.asarray(x, dtype=object)
        if x.ndim == 1 and not k:
            r = filled((len(x), len(x)), 0, float)
            for i in range(len(x)):
                r[i, i] = exact(x[i])
            return r
        return _np.diag(x, **k)

    @staticmethod
    def einsum(spec, *ops, **kw):
        return einsum(spec, *ops)

    @staticmethod
    def dot(a, b):
        return _np.dot(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))

    @staticmethod
    def matmul(a, b):
        return _np.matmul(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))

    @staticmethod
    def sum(x, axis=None, **k):
        return _np.sum(_np.asarray(x, dtype=object), axis=axis)

    @staticmethod
    def real(x):
        return x.real if isinstance(x, complex) else x

    @staticmethod
    def isscalar(x):
        return isinstance(x, Sym) or _np.isscalar(x)

    @staticmethod
    def any(x, *a, **k):
        if isinstance(x, SymBool):
            return bool(x)
        return builtins.any(bool(v) for v in _np.asarray(x, dtype=object).reshape(-1))

    @staticmethod
    def all(x, *a, **k):
        if isinstance(x, SymBool):
            return bool(x)
        return builtins.all(bool(v) for v in _np.asarray(x, dtype=object).reshape(-1))

    @staticmethod
    def array_equal(a, b):
        A, B = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        return A.shape == B.shape and builtins.all(bool(x == y) for x, y in zip(A.reshape(-1), B.reshape(-1)))

    class emath:
        @staticmethod
        def sqrt(x):
            x = exact(x)
            if bool(x < 0):
                return T.app("imaginary_sqrt", [x])
            return T.sqrt(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in PASS:
            return getattr(_np, n)
        raise Unsupported("numpy." + n)


PASS = {"hstack", "vstack", "concatenate", "stack", "meshgrid", "reshape", "transpose", "outer", "tensordot", "trace",
        "shape", "ndim", "size", "append", "ravel", "squeeze", "expand_dims", "moveaxis", "swapaxes", "roll", "flip",
        "cumsum", "prod", "vectorize", "nditer", "ndenumerate", "ndindex", "triu_indices", "tril_indices", "ix_",
        "column_stack", "dstack", "repeat", "tile", "broadcast_to", "atleast_1d", "atleast_2d", "kron", "cross",
        "diagonal", "split", "array_split", "errstate", "seterr", "fill_diagonal", "broadcast_arrays", "insert",
        "delete", "take", "block", "s_", "c_", "r_", "object_", "dtype", "complex128", "inner", "vdot", "nonzero",
        "triu", "tril", "diff", "flipud", "fliplr", "int_", "float_", "mgrid", "indices", "str_"}


def einsum(spec, *ops):
    import itertools
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ops = [_np.asarray(o, dtype=object) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum subscripts")
        for l, d in zip(s, o.shape):
            if dims.setdefault(l, d) != d:
                raise ValueError("einsum dimensions")
    summed = [l for l in dims if l not in out]
    res = filled(tuple(dims[l] for l in out), 0, float)
    for oi in itertools.product(*[range(dims[l]) for l in out]):
        env = dict(zip(out, oi))
        tot = T.ZERO
        for si in itertools.product(*[range(dims[l]) for l in summed]):
            env.update(zip(summed, si))
            t = T.ONE
            for s, o in zip(ins, ops):
                v = exact(o[tuple(env[l] for l in s)])
                if v is T.ZERO:
                    t = T.ZERO
                    break
                t = t * v
            tot = tot + t
        if out:
            res[oi] = tot
        else:
            return tot
    return res


def make_numpy():
    m = NP("numpy")
    return m
