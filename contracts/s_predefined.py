"""Contracts of einsteinpy.symbolic.predefined (S10): the published line elements and the field equations they solve.

`line_element` : every constructor returns the published components, for default, symbolic and numeric parameters.
`field_equations` : the curvature of the components the constructor actually returns satisfies its field equations
(computed by the harness from the definition; S01-S03 are the contracts of the package's own curvature code)."""
import numpy as np
from engine.registry import harness
from engine import terms as T
from .s_symbolic import SYM, start, same, flat, term, at

PRE = SYM + ".predefined"


def D(S, *xs):
    n = len(xs)
    return [[xs[i] if i == j else S.Integer(0) for j in range(n)] for i in range(n)]


def off(g, i, j, v):
    g[i][j] = g[j][i] = v
    return g


# name -> (coordinate names, parameter names with default symbol, published components)
def _mink(S, x, c):
    return D(S, S.Integer(-1), 1 / c ** 2, 1 / c ** 2, 1 / c ** 2)


def _minkp(S, x, c):
    t, r, th, ph = x
    return D(S, S.Integer(-1), 1 / c ** 2, r ** 2 / c ** 2, r ** 2 * S.sin(th) ** 2 / c ** 2)


def _ads(S, x):
    t, ch, th, ph = x
    return D(S, S.Integer(-1), S.cos(t) ** 2, (S.cos(t) * S.sinh(ch)) ** 2, (S.cos(t) * S.sinh(ch) * S.sin(th)) ** 2)


def _adss(S, x):
    t, r, th, ph = x
    return D(S, -S.cosh(r) ** 2, S.Integer(1), S.sinh(r) ** 2, S.sinh(r) ** 2 * S.sin(th) ** 2)


def _ds(S, x):
    e = S.exp(2 * x[0] / S.Symbol("alpha"))
    return D(S, S.Integer(-1), e, e, e)


def _schw(S, x, c, sch):
    t, r, th, ph = x
    f = 1 - sch / r
    return D(S, f, -1 / (f * c ** 2), -r ** 2 / c ** 2, -r ** 2 * S.sin(th) ** 2 / c ** 2)


def _kn(S, x, c, sch, a, q2):
    t, r, th, ph = x
    Sg = r ** 2 + a ** 2 * S.cos(th) ** 2
    De = r ** 2 - sch * r + a ** 2 + q2
    w = sch * r - q2
    g = D(S, 1 - w / Sg, -Sg / (De * c ** 2), -Sg / c ** 2, -(r ** 2 + a ** 2 + w * a ** 2 * S.sin(th) ** 2 / Sg) * S.sin(th) ** 2 / c ** 2)
    return off(g, 0, 3, w * a * S.sin(th) ** 2 / (Sg * c))


def _q2(S, c, G, eps_0, Q):
    return Q ** 2 * G / (4 * S.pi * eps_0 * c ** 4)


def _rn(S, x, c, G, eps_0, sch, Q):
    t, r, th, ph = x
    f = 1 - sch / r + _q2(S, c, G, eps_0, Q) / r ** 2
    return D(S, f, -1 / (f * c ** 2), -r ** 2 / c ** 2, -r ** 2 * S.sin(th) ** 2 / c ** 2)


def _alc(S, x, x_s, sigma, R, v):
    t, X, y, z = x
    rs = S.sqrt((X - x_s) ** 2 + y ** 2 + z ** 2)
    f = (S.tanh(sigma * (rs + R)) - S.tanh(sigma * (rs - R))) / (2 * S.tanh(sigma * R))
    return off(D(S, v ** 2 * f ** 2 - 1, S.Integer(1), S.Integer(1), S.Integer(1)), 0, 1, -v * f)


def _bv(S, x, c, k):
    t, r, th, ph = x
    return D(S, S.Integer(-1), 1 / c ** 2, k ** 2 * r ** 2 / c ** 2, k ** 2 * r ** 2 * S.sin(th) ** 2 / c ** 2)


def _bk(S, x, c, lambd):
    t, r, th, ph = x
    return D(S, S.Integer(-1), S.exp(2 * S.sqrt(lambd) * c * t) / c ** 2, 1 / (lambd * c ** 2), S.sin(th) ** 2 / (lambd * c ** 2))


def _bessel(S, x, C):
    t, p, ph, z = x
    j0, j1 = S.besselj(0, p), S.besselj(1, p)
    U = C * j0 * S.cos(t)
    K = C ** 2 * p * (p * (j0 ** 2 + j1 ** 2) - 2 * j0 * j1 * S.cos(t) ** 2) / 2
    return D(S, -S.exp(2 * K - 2 * U), S.exp(2 * K - 2 * U), p ** 2 * S.exp(-2 * U), S.exp(2 * U))


def _cm(S, co):
    t, x, y, ph = co
    f, h = S.Function("f")(x), S.Function("h")(y)
    w = (x + y) ** 2
    return D(S, -h / w, 1 / (f * w), 1 / (h * w), f / w)


def _dav(S, x):
    t, r, z, ph = x
    e = (1 + r ** 2) ** S.Rational(2, 5)
    R = S.Rational
    return D(S, -e ** 3, t ** R(4, 3) * e, 1 / (t ** R(2, 3) * e), t ** R(4, 3) * r ** 2 / e)


def _ernst(S, x, B, M):
    t, r, th, ph = x
    L, w = 1 + B ** 2 * r ** 2 * S.sin(th) ** 2, 1 - 2 * M / r
    return D(S, -L ** 2 * w, L ** 2 / w, L ** 2 * r ** 2, r ** 2 * S.sin(th) ** 2 / L ** 2)


def _godel(S, co):
    t, x, y, z = co
    e = S.exp(S.sqrt(2) * S.Symbol("omega") * x)
    return off(D(S, S.Integer(-1), S.Integer(1), -e ** 2 / 2, S.Integer(1)), 0, 2, -e)


def _jnw(S, x, c, G, gam, M):
    t, r, th, ph = x
    al = 1 - 2 * G * M / (c ** 2 * gam * r)
    return D(S, -al ** gam, 1 / (al ** gam * c ** 2), r ** 2 * al ** (1 - gam) / c ** 2, r ** 2 * al ** (1 - gam) * S.sin(th) ** 2 / c ** 2)


SPH, CART = "t r theta phi", "t x y z"
LINE = {
    "MinkowskiCartesian": (CART, dict(c="c"), _mink),
    "Minkowski": (CART, dict(c="c"), _mink),
    "MinkowskiPolar": (SPH, dict(c="c"), _minkp),
    "AntiDeSitter": ("t chi theta phi", {}, _ads),
    "AntiDeSitterStatic": (SPH, {}, _adss),
    "DeSitter": (CART, {}, _ds),
    "Schwarzschild": (SPH, dict(c="c", sch="r_s"), _schw),
    "Kerr": (SPH, dict(c="c", sch="r_s", a="a"), lambda S, x, c, sch, a: _kn(S, x, c, sch, a, S.Integer(0))),
    "KerrNewman": (SPH, dict(c="c", G="G", eps_0="eps_0", sch="r_s", a="a", Q="Q"),
                   lambda S, x, c, G, eps_0, sch, a, Q: _kn(S, x, c, sch, a, _q2(S, c, G, eps_0, Q))),
    "ReissnerNordstorm": (SPH, dict(c="c", G="G", eps_0="eps_0", sch="r_s", Q="Q"), _rn),
    "AlcubierreWarp": (CART, dict(x_s="x_s", sigma="sigma", R="R", v="v"), _alc),
    "BarriolaVilekin": (SPH, dict(c="c", k="k"), _bv),
    "BertottiKasner": (SPH, dict(c="c", lambd="l"), _bk),
    "BesselGravitationalWave": ("t rho phi z", dict(C="C"), _bessel),
    "CMetric": ("t x y phi", {}, _cm),
    "Davidson": ("t r z phi", {}, _dav),
    "Ernst": (SPH, dict(B="B", M="M"), _ernst),
    "Godel": (CART, {}, _godel),
    "JanisNewmanWinicour": (SPH, dict(c="c", G="G", gam="gam", M="M"), _jnw),
}


def syms_of(k, names):
    return tuple(k.S.Symbol(n) for n in names.split())


@harness("S10", variants=[dict(name=n, how=h) for n in LINE for h in (("default", "given", "numbers") if LINE[n][1] else ("default",))], budget=60, runs=1, target="predefined constructors")
def line_element(k, name, how):
    start(k)
    S = k.S
    co, params, f = LINE[name]
    F = k.get(PRE + ":" + name)
    if how == "default":
        args = {p: S.Symbol(d) for p, d in params.items()}
        m = k.call(F)
    else:
        args = {p: (S.Symbol("par_" + p) if how == "given" else S.Integer(i + 2)) for i, p in enumerate(params)}
        m = k.call(F, **args)
    x = syms_of(k, co)
    k.true("class and configuration", type(m).__name__ == "MetricTensor" and m.config == "ll")
    k.true("coordinates", list(m.symbols()) == list(x))
    same(k, "line element", m.tensor(), f(S, x, **args))


# ---------------------------------------------------------------------------------------------- field equations
def inv(g):
    """exact inverse of a 4x4 matrix with at most one off-diagonal pair"""
    n = len(g)
    out = [[T.ZERO] * n for _ in range(n)]
    pair = next(((i, j) for i in range(n) for j in range(i + 1, n) if g[i][j] is not T.ZERO), None)
    for i in range(n):
        if pair is None or i not in pair:
            out[i][i] = T.div(T.ONE, g[i][i])
    if pair:
        i, j = pair
        d = T.add(T.mul(g[i][i], g[j][j]), T.neg(T.mul(g[i][j], g[i][j])))
        out[i][i], out[j][j] = T.div(g[j][j], d), T.div(g[i][i], d)
        out[i][j] = out[j][i] = T.neg(T.div(g[i][j], d))
    return out


def total(xs):
    s = T.ZERO
    for x in xs:
        s = T.add(s, x)
    return s


class Curvature:
    def __init__(self, g, x, d=T.diff):
        n = self.n = len(g)
        self.g, self.x, self.d, self.u = g, x, d, inv(g)
        R = range(n)
        dg = [[[d(g[i][j], x[k]) for k in R] for j in R] for i in R]
        self.G = [[[total(T.mul(T.mul(T.const(1) / 2 if False else T.div(self.u[i][m], T.const(2)), total([dg[m][j][l], dg[m][l][j], T.neg(dg[j][l][m])])), T.ONE)
                          for m in R if self.u[i][m] is not T.ZERO) for l in R] for j in R] for i in R]

    def riemann(self, t, s, r, v):
        G, d, x = self.G, self.d, self.x
        return total([d(G[t][s][v], x[r]), T.neg(d(G[t][s][r], x[v]))] +
                     [T.add(T.mul(G[p][s][v], G[t][p][r]), T.neg(T.mul(G[p][s][r], G[t][p][v]))) for p in range(self.n)])

    def ricci(self, m, v):
        return total(self.riemann(a, m, a, v) for a in range(self.n))

    def scalar(self):
        return total(T.mul(self.u[i][j], self.ricci(i, j)) for i in range(self.n) for j in range(self.n) if self.u[i][j] is not T.ZERO)


def scaled(lam):
    return lambda C, i, j: T.mul(lam, C.g[i][j])


def sy(n):
    return T.var("$" + n)


def bessel_d(e, x):
    """d/d rho with J0' = -J1, J1' = J0 - J1/rho (the two defining recurrences), other coordinates as usual"""
    r = sy("rho")
    p = T.diff(e, x)
    if x is not r:
        return p
    j0, j1 = T.app("besselj0", [r]), T.app("besselj1", [r])
    return T.subst(p, {T.app("besselj0", [r], (0,)): T.neg(j1), T.app("besselj1", [r], (0,)): T.add(j0, T.neg(T.div(j1, r)))})


VAC = dict(ricci=lambda C, i, j: T.ZERO)
FIELD = {
    "Schwarzschild": VAC, "Kerr": VAC, "BesselGravitationalWave": dict(VAC, d=bessel_d),
    "MinkowskiCartesian": dict(riemann=True), "MinkowskiPolar": dict(riemann=True),
    "KerrNewman": dict(scalar=T.ZERO), "ReissnerNordstorm": dict(scalar=T.ZERO), "Ernst": dict(scalar=T.ZERO), "Davidson": dict(scalar=T.ZERO),
    "DeSitter": dict(ricci=scaled(T.div(T.const(3), T.mul(sy("alpha"), sy("alpha"))))),
    "AntiDeSitter": dict(ricci=scaled(T.const(-3))), "AntiDeSitterStatic": dict(ricci=scaled(T.const(-3))),
    "BertottiKasner": dict(ricci=scaled(T.mul(sy("l"), T.mul(sy("c"), sy("c"))))),
    # stress of a global monopole: only the angular block is curved, R^th_th = (1 - k^2) c^2 / (k r)^2
    "BarriolaVilekin": dict(ricci=lambda C, i, j: T.ZERO if i < 2 or i != j else
                            T.mul(T.add(T.ONE, T.neg(T.mul(sy("k"), sy("k")))), T.ONE if i == 2 else T.mul(T.fn("sin", sy("theta")), T.fn("sin", sy("theta"))))),
    # massless scalar field phi(r): R_mn = d_m phi d_n phi
    "JanisNewmanWinicour": dict(ricci=lambda C, i, j: None if i == j == 1 else T.ZERO),
    # dust with Lambda: R_mn = 2 omega^2 u_m u_n
    "Godel": dict(ricci=lambda C, i, j: T.mul(T.mul(T.const(2), T.mul(sy("omega"), sy("omega"))), T.mul(C.g[0][i], C.g[0][j]))),
    # f a cubic, h(y) = -f(-y)
    "CMetric": dict(VAC, cubic=True),
}


@harness("S10", variants=[dict(name=n) for n in FIELD], budget=300, mode="sym", target="predefined constructors")
def field_equations(k, name):
    """curvature of the returned components, from the definition"""
    f = FIELD[name]
    m = k.call(k.get(PRE + ":" + name))
    n = 4
    a = [[T.lift_or_fail(term(k, m.tensor()[i, j])) for j in range(n)] for i in range(n)]
    x = [s.t for s in m.symbols()]
    if f.get("cubic"):
        p = [k.real("a%d" % i) for i in range(4)]
        X, Y = x[1], x[2]
        cub = lambda z, s: total(T.mul(p[i], T.mul(T.const(s ** i), T.ipow(z, i))) for i in range(4))
        sub = {T.app("$f", [X]): cub(X, 1), T.app("$h", [Y]): T.neg(cub(Y, -1))}
        a = [[T.subst(e, sub) for e in row] for row in a]
    k.true("symmetric", all(a[i][j] is a[j][i] for i in range(n) for j in range(n)))
    C = Curvature(a, x, f.get("d", T.diff))
    R = range(n)
    if f.get("riemann"):
        for I in np.ndindex(n, n, n, n):
            k.equal("flat: R%s = 0" % (list(I),), C.riemann(*I), T.ZERO)
    if "ricci" in f:
        for i in R:
            for j in range(i, n):
                w = f["ricci"](C, i, j)
                if w is not None:
                    k.equal("Ricci[%d,%d]" % (i, j), C.ricci(i, j), w)
    if "scalar" in f:
        k.equal("Ricci scalar", C.scalar(), f["scalar"])


# ---------------------------------------------------------------------------------------------- find
@harness("S10", variants=[dict(part=i) for i in range(4)], budget=60, runs=1, target="predefined.find")
def finder(k, part):
    """find(s) for every substring of every name in lower, upper and original case (all the strings on which a
    substring test can succeed), and for strings that occur in none"""
    mod = k.mod(PRE) if hasattr(k, "mod") else None
    names = sorted(LINE)
    f = k.get(PRE + ":find")
    subs = sorted({n.lower()[i:j] for n in names for i in range(len(n)) for j in range(i, len(n) + 1)})[part::4]
    other = ["find", "constants", "symbols", "kerrr", "zz", "__", "godel2", "Kerr Newman", " "]
    for s in subs + other:
        for q in {s, s.upper(), s.title()}:
            got = k.raw(f, q)
            want = [n for n in names if q.lower() in n.lower()]
            if sorted(got) != want:
                k.equal("find(%r)" % q, str(sorted(got)), str(want))
    k.true("find covers all substrings", True)
