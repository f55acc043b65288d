"""Specification vocabulary shared by the contracts (textbook formulas, tensor algebra)."""
import numpy as np
from engine import terms as T
from engine import npshim


def si(x):
    """SI value of a quantity, numbers unchanged"""
    if hasattr(x, "_is_shim_quantity"):
        return x._si()
    return x.si.value if hasattr(x, "si") else x


def zeros(k, *shape):
    a = k.np.zeros(shape)
    return a


def levi_civita(k, g_inv, dg):
    """Gamma^i_jk from the inverse metric and dg[n][i][j] = d_n g_ij"""
    n = 4
    G = zeros(k, n, n, n)
    low = zeros(k, n, n, n)
    for i in range(n):
        for a in range(n):
            for b in range(a, n):
                low[i, a, b] = low[i, b, a] = (dg[a][i][b] + dg[b][i][a] - dg[i][a][b]) / 2
    for i in range(n):
        for a in range(n):
            for b in range(a, n):
                s = 0
                for j in range(n):
                    s = s + g_inv[i, j] * low[j, a, b]
                G[i, a, b] = G[i, b, a] = s
    return G


def jacobian(k, f, x, wrt, h=None):
    """partial derivatives of the array-valued function f at x: exact when symbolic, Richardson differences otherwise"""
    if k.sym:
        y = f(x)
        out = []
        for i in wrt:
            d = np.empty(y.shape, dtype=object)
            for ix in np.ndindex(*y.shape):
                d[ix] = k.diff(y[ix], x[i])
            out.append(d)
        return out
    out = []
    for i in wrt:
        step = h[i] if h is not None else 1e-3 * max(1.0, abs(float(x[i])))

        def cd(s):
            a, b = np.array(x, dtype=float), np.array(x, dtype=float)
            a[i] += s
            b[i] -= s
            return (np.asarray(f(a)) - np.asarray(f(b))) / (2 * s)
        d1, d2, d3 = cd(step), cd(step / 2), cd(step / 4)
        e1, e2 = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
        out.append((16 * e2 - e1) / 15)
    return out


def mass(k, name="M"):
    """a mass whose geometric size is of order one"""
    return k.pos(name, sample=lambda rng, env: rng.choice([1.0, 0.5, rng.uniform(0.3, 2)]) * env["c"] ** 2 / env["G"])


def charge(k, name="Q"):
    def s(rng, env):
        # |r_Q| of order one: Q = r_Q c^2 / sqrt(G k_e)
        import math
        ke = 1 / (4 * math.pi * env["eps0"])
        return rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-1, 1), 0.3]) * env["c"] ** 2 / math.sqrt(env["G"] * ke)
    return k.real(name, sample=s)


def radius(k, name="r"):
    return k.pos(name, sample=lambda rng, env: rng.choice([rng.uniform(0.1, 12), rng.uniform(3, 12)]))


def spin(k, name="a"):
    return k.real(name, "unit")


# ---------------------------------------------------------------- textbook metrics (SI)
def gm(k, M):
    return k.G * M / k.c ** 2


def rq2(k, Q):
    return Q ** 2 * k.G * k.ke / k.c ** 4


def kn_parts(k, r, th, M, a, Q):
    al = a * gm(k, M)
    sg = r ** 2 + al ** 2 * k.cos(th) ** 2
    dl = r ** 2 - 2 * gm(k, M) * r + al ** 2 + (rq2(k, Q) if Q is not None else 0)
    return al, sg, dl


def g_schwarzschild(k, x, M):
    r, th = x[1], x[2]
    g = zeros(k, 4, 4)
    f = 1 - 2 * gm(k, M) / r
    g[0, 0] = f * k.c ** 2
    g[1, 1] = -1 / f
    g[2, 2] = -r ** 2
    g[3, 3] = -r ** 2 * k.sin(th) ** 2
    return g


def g_kerr(k, x, M, a, Q=None):
    """Kerr(-Newman) in Boyer-Lindquist coordinates (t in seconds)"""
    r, th = x[1], x[2]
    al, sg, dl = kn_parts(k, r, th, M, a, Q)
    s2 = k.sin(th) ** 2
    c = k.c
    w = 2 * gm(k, M) * r - (rq2(k, Q) if Q is not None else 0)
    g = zeros(k, 4, 4)
    g[0, 0] = (1 - w / sg) * c ** 2
    g[0, 3] = g[3, 0] = w * al * s2 / sg * c
    g[1, 1] = -sg / dl
    g[2, 2] = -sg
    g[3, 3] = -(r ** 2 + al ** 2 + w * al ** 2 * s2 / sg) * s2
    return g


def gi_kerr(k, x, M, a, Q=None):
    """inverse of g_kerr"""
    r, th = x[1], x[2]
    al, sg, dl = kn_parts(k, r, th, M, a, Q)
    s2 = k.sin(th) ** 2
    c = k.c
    w = 2 * gm(k, M) * r - (rq2(k, Q) if Q is not None else 0)
    g = zeros(k, 4, 4)
    S = (r ** 2 + al ** 2) ** 2 - dl * al ** 2 * s2
    g[0, 0] = S / (sg * dl) / c ** 2
    g[0, 3] = g[3, 0] = w * al / (sg * dl) / c
    g[1, 1] = -dl / sg
    g[2, 2] = -1 / sg
    g[3, 3] = -(dl - al ** 2 * s2) / (sg * dl * s2)
    return g


def gi_schwarzschild(k, x, M):
    r, th = x[1], x[2]
    g = zeros(k, 4, 4)
    f = 1 - 2 * gm(k, M) / r
    g[0, 0] = 1 / f / k.c ** 2
    g[1, 1] = -f
    g[2, 2] = -1 / r ** 2
    g[3, 3] = -1 / (r ** 2 * k.sin(th) ** 2)
    return g


def rq(k, Q):
    return k.sqrt(rq2(k, Q))


def A_kn(k, x, M, a, Q):
    r, th = x[1], x[2]
    al, sg, dl = kn_parts(k, r, th, M, a, Q)
    A = zeros(k, 4)
    A[0] = r * rq(k, Q) / sg
    A[3] = -r * al * rq(k, Q) * k.sin(th) ** 2 / sg
    return A


def F_kn(k, x, M, a, Q):
    """exterior derivative of A_kn (closed form)"""
    r, th = x[1], x[2]
    al, sg, dl = kn_parts(k, r, th, M, a, Q)
    q = rq(k, Q)
    s, co = k.sin(th), k.cos(th)
    dA0r = q * (sg - 2 * r ** 2) / sg ** 2
    dA0t = r * q * 2 * al ** 2 * s * co / sg ** 2
    dA3r = -al * s ** 2 * dA0r
    dA3t = -r * al * q * 2 * s * co * (r ** 2 + al ** 2) / sg ** 2
    F = zeros(k, 4, 4)
    F[1, 0], F[2, 0], F[1, 3], F[2, 3] = dA0r, dA0t, dA3r, dA3t
    for i in range(4):
        for j in range(4):
            if (i, j) in ((0, 1), (0, 2), (3, 1), (3, 2)):
                F[i, j] = -F[j, i]
    return F


# ---------------------------------------------------------------- objects under verification
COORD = {"Cartesian": "CartesianDifferential", "Spherical": "SphericalDifferential", "BoyerLindquist": "BoyerLindquistDifferential"}
FIELDS = {"Cartesian": ["t", "x", "y", "z", "v_x", "v_y", "v_z"],
          "Spherical": ["t", "r", "theta", "phi", "v_r", "v_th", "v_p"],
          "BoyerLindquist": ["t", "r", "theta", "phi", "v_r", "v_th", "v_p"]}
UNITS = {"Cartesian": ["s", "m", "m", "m", "m/s", "m/s", "m/s"],
         "Spherical": ["s", "m", "rad", "rad", "m/s", "rad/s", "rad/s"],
         "BoyerLindquist": ["s", "m", "rad", "rad", "m/s", "rad/s", "rad/s"]}


def coords(k, system, values=(0, 10, 1, 1, 0, 0, 0)):
    cls = k.get("einsteinpy.coordinates:" + COORD[system])
    vals = [k.q(v, u) for v, u in zip(values, UNITS[system])]
    return k.raw(cls, *vals)


def metric(k, which, M, a=None, Q=None, q=None, system=None):
    """an object of the named metric class, parameters in SI"""
    cls = k.get("einsteinpy.metric:" + which)
    co = coords(k, system or ("Spherical" if which == "Schwarzschild" else "BoyerLindquist"))
    args = [co, k.q(M, "kg")]
    if which != "Schwarzschild":
        args.append(k.q(a, ""))
    if which == "KerrNewman":
        args.append(k.q(Q, "C"))
        if q is not None:
            args.append(k.q(q, "C/kg"))
    return k.call(cls, *args)


def setup(k, which, with_q=False):
    """declares the inputs of a built-in metric: dict with M, a, Q, x and the textbook metric"""
    M = mass(k)
    a = spin(k) if which != "Schwarzschild" else None
    Q = charge(k) if which == "KerrNewman" else None
    q = k.real("q") if with_q else None
    t = k.real("t")
    r = radius(k)
    th = k.polar("th")
    ph = k.azimuth("ph")
    x = k.array([t, r, th, ph])
    if which == "Schwarzschild":
        k.assume(r != 2 * gm(k, M))
        keep(k, r - 2 * gm(k, M), r)
        g, gi = g_schwarzschild(k, x, M), gi_schwarzschild(k, x, M)
        g_of = lambda y: g_schwarzschild(k, y, M)
    else:
        dl = kn_parts(k, r, th, M, a, Q)[2]
        k.assume(dl != 0)
        keep(k, dl, r ** 2)
        g, gi = g_kerr(k, x, M, a, Q), gi_kerr(k, x, M, a, Q)
        g_of = lambda y: g_kerr(k, y, M, a, Q)
    m = metric(k, which, M, a, Q, q)
    return dict(M=M, a=a, Q=Q, q=q, x=x, g=g, gi=gi, g_of=g_of, m=m, r=r, th=th)


def keep(k, v, scale, rel=0.02):
    """well-conditioned concrete inputs only (no effect on the proof)"""
    if not k.sym and not abs(v) > rel * abs(scale):
        from engine.ctx import Reject
        raise Reject()


# ---------------------------------------------------------------- arbitrary smooth functions on (dual) arguments
def smooth(k, name, nargs):
    """an arbitrary smooth function of nargs variables; on dual arguments it carries its exact derivative (C. D01)"""
    f = k.fun(name, nargs)
    if not k.sym:
        return f

    def g(*args):
        duals = [a for a in args if hasattr(a, "deriv") and hasattr(a, "val")]
        if not duals:
            return f(*args)
        vals = [T.lift_or_fail(a.val) if hasattr(a, "deriv") else T.lift_or_fail(npshim.exact(a)) for a in args]
        d = T.ZERO
        for i, a in enumerate(args):
            if hasattr(a, "deriv"):
                d = d + T.app(name, vals, (i,)) * a.deriv
        return type(duals[0])(T.app(name, vals), d)
    return g


def partial(k, name, args, i, h=1e-4):
    """d/d(args[i]) of the smooth function `name`"""
    if k.sym:
        return T.app(name, [T.lift_or_fail(npshim.exact(a)) for a in args], (i,))
    from engine.ctx import _happ_float

    def cd(s):
        a, b = list(args), list(args)
        a[i] = a[i] + s
        b[i] = b[i] - s
        return (_happ_float(name, a) - _happ_float(name, b)) / (2 * s)
    d1, d2, d3 = cd(h), cd(h / 2), cd(h / 4)
    e1, e2 = (4 * d2 - d1) / 3, (4 * d3 - d2) / 3
    return (16 * e2 - e1) / 15
