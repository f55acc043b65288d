from engine.registry import contract, harness
from .common import *

D = "einsteinpy.utils.dual:"


def dual(k, v, d):
    return k.call(k.get(D + "DualNumber"), v, d)


def check(k, label, got, val, der, scale=None):
    k.true(label + ": is a dual number", isinstance(got, k.get(D + "DualNumber")))
    k.equal(label + ": value", got.val, val)
    k.equal(label + ": derivative", got.deriv, der, scale=scale)


BIN = {
    "add": (lambda x, y: x + y, lambda a, da, b, db: (a + b, da + db)),
    "sub": (lambda x, y: x - y, lambda a, da, b, db: (a - b, da - db)),
    "mul": (lambda x, y: x * y, lambda a, da, b, db: (a * b, da * b + a * db)),
    "div": (lambda x, y: x / y, lambda a, da, b, db: (a / b, (da * b - a * db) / b ** 2)),
}


def nonzero(rng, env):
    return rng.choice([rng.uniform(0.3, 3), -rng.uniform(0.3, 3), 1.0, -1.0])


@harness("D01", variants=[{"op": o, "left": l, "right": r} for o in BIN for l in ("dual", "plain") for r in ("dual", "plain", "int") if not (l != "dual" and r != "dual")],
         target=D + "DualNumber")
def dual_binary(k, op, left, right):
    a, da = k.real("a"), k.real("da")
    f, spec = BIN[op]
    if right == "int":
        b, db = k.array([3])[0], k.array([0])[0]
    else:
        b = k.real("b", sample=nonzero if op == "div" else None)
        db = k.real("db")
        if op == "div":
            k.assume(b != 0)
    x = dual(k, a, da) if left == "dual" else a
    y = dual(k, b, db) if right == "dual" else (3 if right == "int" else b)
    if left != "dual":
        da = da * 0
    if right != "dual":
        db = db * 0
    check(k, op, k.call(f, x, y), *spec(a, da, b, db))


REFLECTED = {"add": "__radd__", "sub": "__rsub__", "mul": "__rmul__", "div": "__rtruediv__"}


@harness("D01", variants=[{"op": o} for o in BIN], target=D + "DualNumber.__rsub__," + D + "DualNumber.__rtruediv__")
def dual_reflected(k, op):
    """the reflected operators called by name, with two dual operands and with a plain one"""
    a, da, b, db = k.real("a"), k.real("da"), k.real("b", sample=nonzero), k.real("db")
    k.assume(b != 0)
    x, y = dual(k, a, da), dual(k, b, db)
    check(k, "two duals", k.call(getattr(y, REFLECTED[op]), x), *BIN[op][1](a, da, b, db))
    check(k, "plain", k.call(getattr(y, REFLECTED[op]), a), *BIN[op][1](a, a * 0, b, db))


@harness("D01", variants=[{"op": o, "left": l} for o in BIN for l in ("int", "float")], target=D + "DualNumber")
def dual_binary_const(k, op, left):
    """literal operands on the left (as in 2 * x, 1.5 / x)"""
    f, spec = BIN[op]
    b, db = k.real("b", sample=nonzero), k.real("db")
    k.assume(b != 0)
    c = {"int": 3, "float": 1.5}[left]
    cc = k.array([c])[0]
    check(k, op, k.call(f, c, dual(k, b, db)), *spec(cc, cc * 0, b, db))
    z = k.call(f, 0, dual(k, b, db))
    check(k, op + " zero", z, *spec(cc * 0, cc * 0, b, db))


@harness("D01", target=D + "DualNumber.__neg__")
def dual_neg(k):
    a, da = k.real("a"), k.real("da")
    check(k, "neg", k.call(lambda x: -x, dual(k, a, da)), -a, -da)


POW = [0, 2, 3, 4, 5, 1, -1, -2, -3, 0.5, 1.5, -0.5]


@harness("D01", variants=[{"n": n} for n in POW], target=D + "DualNumber.__pow__")
def dual_pow(k, n):
    """literal exponents"""
    if n == int(n) and n > 0:
        a = k.real("a", sample=nonzero)
    elif n == int(n):
        a = k.real("a", sample=nonzero)
        k.assume(a != 0)
    else:
        a = k.pos("a")
    da = k.real("da")
    if k.sym or a != 0:
        x = dual(k, a, da)
        want = da * n * a ** (n - 1) if n != 1 else da
        check(k, "pow", k.call(lambda y: y ** n, x), a ** n, want)


@harness("D01", target=D + "DualNumber.__pow__")
def dual_pow_real(k):
    """an arbitrary real exponent"""
    a, da = k.pos("a"), k.real("da")
    p = k.real("p")
    check(k, "pow", k.call(lambda y: y ** p, dual(k, a, da)), a ** p, da * p * a ** (p - 1))


@harness("D01", target=D + "DualNumber.__pow__")
def dual_pow_at_zero(k):
    """x**n at x = 0, n a positive integer"""
    da = k.real("da")
    z = k.array([0])[0]
    for n in (1, 2, 3, 4):
        check(k, "0**%d" % n, k.call(lambda y: y ** n, dual(k, z, da)), z, da if n == 1 else z)
    check(k, "0**0", k.call(lambda y: y ** 0, dual(k, z, da)), z + 1, z)


FUN = {
    "sin": (lambda np, x: np.sin(x), lambda k, a, da: (k.sin(a), da * k.cos(a))),
    "cos": (lambda np, x: np.cos(x), lambda k, a, da: (k.cos(a), -da * k.sin(a))),
    "tan": (lambda np, x: np.tan(x), lambda k, a, da: (k.sin(a) / k.cos(a), da / k.cos(a) ** 2)),
    "log": (lambda np, x: np.log(x), lambda k, a, da: (k.np.log(a), da / a)),
    "exp": (lambda np, x: np.exp(x), lambda k, a, da: (k.np.exp(a), da * k.np.exp(a))),
}


@harness("D01", variants=[{"fn": f} for f in FUN], target=D + "DualNumber")
def dual_function(k, fn):
    f, spec = FUN[fn]
    a = k.pos("a") if fn == "log" else k.real("a")
    da = k.real("da")
    if fn == "tan":
        k.assume(k.cos(a) != 0)
        keep(k, k.cos(a), 1)
    val, der = spec(k, a, da)
    if k.sym:
        # the textbook rules above agree with the derivative of the term language
        t = k.real("t")
        s = {"sin": k.sin, "cos": k.cos, "tan": lambda z: k.sin(z) / k.cos(z), "log": k.np.log, "exp": k.np.exp}[fn]
        h = k.fun("h", 1)(t)
        if fn == "log":
            k.assume(h > 0)
        if fn == "tan":
            k.assume(k.cos(h) != 0)
        k.equal("lemma: chain rule", k.diff(s(h), t), spec(k, h, k.diff(h, t))[1])
    check(k, fn, k.call(f, k.np, dual(k, a, da)), val, der)
    check(k, fn + " method", k.call(getattr(dual(k, a, da), fn)), val, der)


@harness("D01", target=D + "DualNumber," + D + "_deriv")
def dual_composite(k):
    """chain rule through a composite, against the derivative of the same expression on plain terms"""
    x = k.pos("x")
    m, a = k.real("m"), k.real("s")

    def f(q, np):
        u = (1 - 2 * m / q + a ** 2 / q ** 2) * np.sin(q) ** 2
        w = np.exp(-u) + q * np.cos(a * q) - np.log(1 + q ** 2) / (3 + q)
        return -w / (1 + u * u) + (q ** 3 - 2) / q ** 1.5
    d = k.call(k.get(D + "_deriv"), lambda q: f(q, k.np), x)
    if k.sym:
        want = k.diff(f(x, k.np), x)
    else:
        want = jacobian(k, lambda y: k.np.array([f(y[0], k.np)]), [x], [0], h=[1e-3 * x])[0][0]
    k.equal("derivative of a composite", d, want, tol=1e-5, scale=1e3)


@harness("D01", target=D + "_deriv")
def dual_deriv_contract(k):
    x, w = k.real("x"), k.real("w")
    f = smooth(k, "f", 2)
    k.equal("derivative", k.call(k.get(D + "_deriv"), lambda q: f(q, w), x), partial(k, "f", (x, w), 0))
    k.equal("constant function", k.call(k.get(D + "_deriv"), lambda q: w, x), w * 0)
    k.equal("literal constant", k.call(k.get(D + "_deriv"), lambda q: 2.5, x), w * 0)


@harness("D01", target=D + "DualNumber")
def dual_equality(k):
    a, da, b, db = k.real("a"), k.real("da"), k.real("b"), k.real("db")
    x, y = dual(k, a, da), dual(k, b, db)
    same = k.call(lambda: bool(x == y))
    ne = k.call(lambda: bool(x != y))
    k.true("not equal is the negation", same != ne)
    if same:
        k.equal("equal duals have equal values", a, b)
        k.equal("equal duals have equal derivatives", da, db)
    k.true("reflexive", k.call(lambda: bool(x == dual(k, a, da))))


# ------------------------------------------------------------------ D02
def generic_g(k, symmetric_params=2, n=4, const=()):
    """an arbitrary symmetric metric function g(q, *params); components listed in const are literal constants"""
    F = {}
    for i in range(n):
        for j in range(i, n):
            F[i, j] = smooth(k, "g%d%d" % (i, j), 4 + symmetric_params)

    def g(q, *prm):
        r = np.zeros((n, n), dtype=object) if k.sym else np.zeros((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                r[i, j] = r[j, i] = 1.0 if (i, j) in const else F[i, j](q[0], q[1], q[2], q[3], *prm)
        return r
    return g


@harness("D02", variants=[{"wrt": w} for w in range(4)], target=D + "_jacobian_g," + D + "_diff_g")
def metric_jacobian(k, wrt):
    q = k.array([k.real("q%d" % i) for i in range(4)])
    prm = [k.real("a"), k.real("b")]
    g = generic_g(k)
    J = k.call(k.get(D + "_jacobian_g"), g, prm, q, wrt)
    want = k.np.zeros((4, 4))
    for i in range(4):
        for j in range(4):
            a, b = min(i, j), max(i, j)
            want[i, j] = partial(k, "g%d%d" % (a, b), list(q) + prm, wrt)
    k.equal("Jacobian", J, want)
    k.equal("symmetric", J, J.T)
    for i in range(4):
        for j in range(4):
            d = k.call(k.get(D + "_diff_g"), g, prm, q, (i, j), wrt)
            k.equal("_diff_g(%d,%d)" % (i, j), d, want[i, j])


@harness("D02", variants=[{"wrt": w} for w in range(4)], target=D + "_jacobian_g")
def metric_jacobian_constant_parts(k, wrt):
    """components that do not depend on the coordinates have zero derivative"""
    q = [k.real("q%d" % i) for i in range(4)]
    g = generic_g(k, const=((0, 0), (1, 2)))
    prm = (k.real("a"), k.real("b"))
    J = k.call(k.get(D + "_jacobian_g"), g, prm, q, wrt)
    k.equal("g00", J[0, 0], 0 * q[0])
    k.equal("g12", J[1, 2], 0 * q[0])
    k.equal("g21", J[2, 1], 0 * q[0])
    k.equal("g03", J[0, 3], partial(k, "g03", q + list(prm), wrt))


@harness("D02", target=D + "_diff_g")
def metric_jacobian_errors(k):
    q = [k.real("q%d" % i) for i in range(4)]
    g = generic_g(k, 0)
    for w in (-1, 4, 5, 1.5):
        k.raises("derivative index %s" % w, "ValueError", k.get(D + "_diff_g"), g, (), q, (0, 0), w)
        k.raises("Jacobian index %s" % w, "ValueError", k.get(D + "_jacobian_g"), g, (), q, w)
    for ix in ((0,), (0, 1, 2), ()):
        k.raises("component indices %s" % (ix,), "ValueError", k.get(D + "_diff_g"), g, (), q, ix, 1)
