"""Contracts of einsteinpy.rays.shadow.Shadow (H02).

The integrands and the turning-point equation are under contract for every mass, radius and impact parameter (no loop in
them).  The loops of the constructor run over the impact parameters: they are unrolled for 1..3 rays (bounded), with
scipy.optimize.newton, scipy.integrate.fixed_quad and scipy.interpolate.interp1d replaced by their contracts."""
import numpy as np
from engine.registry import harness
from engine import terms as T
from engine.ctx import Reject
from engine.seq import gen, Seq, GList, extremum

SH = "einsteinpy.rays.shadow:Shadow"


def num(k, x):
    return T.lift(x) if k.sym else float(x)


def setup(k, default=False):
    M = k.pos("M", sample=lambda rng, env: rng.choice([1.0, 0.5, 2.0, rng.uniform(0.2, 5)]))
    fov = k.pos("fov", sample=lambda rng, env: (env.get("M") or 1) * rng.uniform(8, 40))
    lim = num(k, 0.001) if default else k.pos("limit", sample=lambda rng, env: rng.uniform(0.001, 0.5))
    bc = 3 * k.sqrt(num(k, 3)) * M
    k.assume(fov > bc)
    k.assume(lim < bc)
    return M, fov, lim, bc


def integrand(k, M, r, b):
    """documented emission model (Bambi, 10.1103/PhysRevD.87.107501): red- and blue-shifted intensity integrands"""
    gtt = 1 - 2 * M / r
    grr = 1 / gtt
    krk = k.sqrt(gtt / grr * (1 - b ** 2 * gtt / r ** 2))
    v = krk * (grr / gtt) * k.sqrt((1 - gtt) / (gtt * grr))
    red = (1 / (1 / gtt + v)) ** 3 * gtt / (r ** 2 * krk)
    blue = -(1 / (1 / gtt - v)) ** 3 * gtt / (r ** 2 * krk)
    return red, blue


def quad(k, f, a, b):
    """5-point Gauss-Legendre, what scipy.integrate.fixed_quad computes by default (concrete mode only)"""
    x, w = np.polynomial.legendre.leggauss(5)
    return sum(wi * f(a + (b - a) * (xi + 1) / 2) for xi, wi in zip(x, w)) * (b - a) / 2


class External:
    """contracts of the SciPy functions: newton returns a root of its function (real or complex), fixed_quad an integral of
    its function between its limits, interp1d a function"""

    def __init__(self, k, M, pattern):
        self.k, self.M, self.pattern = k, M, list(pattern)
        self.roots, self.quads, self.interp = [], [], []
        sh = k.world.shims
        sh["scipy.optimize"].__dict__["newton"] = self.newton
        sh["scipy.integrate"].__dict__["fixed_quad"] = self.fixed_quad
        sh["scipy.interpolate"].__dict__["interp1d"] = self.interp1d

    def newton(self, func, x0, *a, args=(), **kw):
        i = len(self.roots)
        if i >= len(self.pattern):
            raise T.Unsupported("more roots than rays")
        k = self.k
        z = complex(1, 1) if self.pattern[i] == "c" else k.pos("z%d" % i)
        x = k.pos("x%d" % i)
        k.assume(x > 2 * self.M)
        self.roots.append((z, x, func(x, *args)))
        return z

    def fixed_quad(self, func, a, b, args=(), n=5):
        k, i = self.k, len(self.quads)
        q = k.pos("q")
        if not self.quads:
            k.assume(q > 2 * self.M)
        for p in args[:1]:
            k.assume(1 - p ** 2 * (1 - 2 * self.M / q) / q ** 2 > 0)
        arr = np.empty(1, dtype=object)
        arr[0] = q
        out = np.asarray(func(arr, *args), dtype=object)
        Q = k.real("Q%d" % i)
        self.quads.append((Q, T.lift_or_fail(a), T.lift_or_fail(b), T.lift_or_fail(out.reshape(-1)[0])))
        return Q, None

    def interp1d(self, x, y, kind="linear", *a, **kw):
        n = len(self.interp)

        def f(new):
            new = np.asarray(new, dtype=object)
            out = np.empty(len(new), dtype=object)
            for j in range(len(new)):
                out[j] = self.k.real("I%d_%d" % (n, j))
            self.interp[n].append((new, out))
            return out
        self.interp.append([list(x), list(y), kind])
        return f


class Anywhere:
    """the same contracts for any number of rays: newton is a (partial) function root(b) of the impact parameter whose
    turning-point equation it is given; whether that root is real is a predicate of b; fixed_quad(f, a, b) is an integral of f"""

    def __init__(self, k, M):
        self.k, self.M = k, M
        self.x, self.q = k.pos("x"), k.pos("q")
        k.assume(self.x > 2 * M)
        k.assume(self.q > 2 * M)
        self.interp = []
        sh = k.world.shims
        sh["scipy.optimize"].__dict__["newton"] = self.newton
        sh["scipy.integrate"].__dict__["fixed_quad"] = self.fixed_quad
        sh["scipy.interpolate"].__dict__["interp1d"] = self.interp1d

    def newton(self, func, x0, *a, args=(), **kw):
        k, M = self.k, self.M
        b = 3 * M * k.sqrt(num(k, 3)) - T.lift_or_fail(func(3 * M, *args))
        k.equal("turning-point equation", func(self.x, *args), self.x / k.sqrt(1 - 2 * M / self.x) - b)
        return self.root(b) if bool(self.real(b)) else complex(1, 1)

    def root(self, b):
        return T.app("root", [b])

    def real(self, b):
        return T.app("real_root", [b]) > 0

    def fixed_quad(self, func, a, b, args=(), n=5):
        k = self.k
        arr = np.empty(1, dtype=object)
        arr[0] = self.q
        was, k.in_code = k.in_code, False       # the integrand may be undefined where there is no ray
        try:
            out = np.asarray(func(arr, *args), dtype=object)
        finally:
            k.in_code = was
        return T.app("integral", [T.lift_or_fail(a), T.lift_or_fail(b), T.lift_or_fail(out.reshape(-1)[0])]), None

    def interp1d(self, x, y, kind="linear", *a, **kw):
        n = len(self.interp)

        def f(new):
            g = gen(new)
            if g is None:
                out = np.empty(len(new), dtype=object)
                for j in range(len(new)):
                    out[j] = T.app("spline", [T.lift_or_fail(new[j])])
            else:
                out = Seq(g.n, lambda i: T.app("spline", [g.at(i)]))
            self.interp[n].append((new, out))
            return out
        self.interp.append([x, y, kind])
        return f


def generic_shadow(k):
    M, fov, lim, bc = setup(k)
    n = k.pos("n", sample=lambda rng, env: rng.choice([1, 2, 3, 20]))
    k.assume(n >= 1)
    ext = Anywhere(k, M)
    S = k.call(k.get(SH), k.anyunit(M, "kg", "M"), n, k.anyunit(fov * 1000, "m", "fov"), limit=lim)
    return S, ext, M, fov, lim, bc, n


def length(s):
    g = gen(s)
    return g.n if g is not None else T.lift(len(s))


def element(s, i):
    """i-th element of a list or array; of a list of one element, that one"""
    g = gen(s)
    if g is not None:
        return g.at(i)
    if len(s) != 1:
        raise T.Unsupported("a list of length %d where one of symbolic length was expected" % len(s))
    return s[0]


def at_linspace(k, a, b, n, i):
    if bool(T.lb(T.mkbool("==", T.lift(n) - 1))):
        return a
    return a + (b - a) * i / (n - 1)


def integrals(t, out):
    if isinstance(t, T.Sym):
        if t.op == "app" and t.args[0] == "integral":
            out[t.id] = t
        else:
            for a in t.args:
                integrals(a, out)
    return out


@harness("H02", mode="sym", generic=True, budget=120,
         target=SH + ".__init__," + SH + "._compute_B," + SH + "._root_equation," + SH + "._intensity," + SH + "._intensity_from_event_horizon," + SH + "._intensity_blue_sch," + SH + "._intensity_red_sch")
def rays_any_number(k):
    """any number of rays"""
    S, ext, M, fov, lim, bc, n = generic_shadow(k)
    k.equal("number of impact parameters", length(S.b), n)
    t = k.real("t", "nonneg")
    k.assume(t <= n - 1)
    bt = at_linspace(k, bc, fov, n, t)
    k.equal("impact parameter", element(S.b, t), bt)
    m = length(S.bfin)
    k.equal("one turning point per kept ray", length(S.z), m)
    kept = gen(S.bfin) if gen(S.bfin) is not None else getattr(S.bfin, "dropped", None)
    if kept is not None:
        if kept.keeps is None:
            raise T.Unsupported("kept rays are not a filtered list")
        k.true("kept exactly when the turning point is real", kept.keeps(t) == bool(ext.real(bt)))
    elif bool(T.lb(m > 0)):
        k.true("kept only with a real turning point", ext.real(bt))
    else:
        k.true("dropped only without a real turning point", T.bnot(ext.real(bt)))
    k.equal("one intensity per plotted impact parameter", length(S.intensity), 2 * m)
    k.equal("plotted impact parameters", length(S.fb1), 2 * m)
    k.equal("mirrored impact parameters", length(S.fb2), 2 * m)
    k.equal("inner impact parameters", length(S.b2), m)
    if m is T.ZERO or not bool(T.lb(m > 0)):
        return
    j = k.real("j", "nonneg")
    k.assume(j <= m - 1)
    b = element(S.bfin, j)
    row = element(S.z, j)
    k.equal("impact parameter of the turning point", row[0], b)
    k.equal("turning point", row[1], ext.root(b))
    k.true("root is real", ext.real(b))
    inner = at_linspace(k, lim, bc, m, j)
    k.equal("inner impact parameter", element(S.b2, j), inner)
    half = k.choose()
    at = j if half else m + j
    bb = inner if half else b
    lo = 2 * M if half else ext.root(b)

    def pick(s):
        return element(s, at) if gen(s) is not None else s[0 if half else len(s) // 2]
    k.equal("plotted impact parameter", pick(S.fb1), bb)
    k.equal("mirrored impact parameter", pick(S.fb2), -bb)
    k.assume(1 - bb ** 2 * (1 - 2 * M / ext.q) / ext.q ** 2 > 0)
    red, blue = integrand(k, M, ext.q, bb)
    lin, total = T.lift_or_fail(pick(S.intensity)), num(k, 0)
    names = {x: k.real("I%d" % i) for i, x in enumerate(integrals(lin, {}).values())}
    lin = T.subst(lin, names)
    for x, v in names.items():
        c = T.diff(lin, v)
        lin = lin - c * v
        a, e, F = x.args[2:]
        k.equal("integration limits (sum)", a + e, lo + fov)
        k.equal("integration limits (product)", a * e, lo * fov)
        total = total + c * (e - a) / (fov - lo) * F
    k.equal("nothing but the integrals", lin, num(k, 0))
    k.equal("integrated intensity", total, red if half else red - blue)


def linspace(k, a, b, n):
    return [a + (b - a) * num(k, i) / num(k, n - 1) if n > 1 else a for i in range(n)]


def shadow(k, n, pattern=None, default=False):
    M, fov, lim, bc = setup(k, default)
    ext = External(k, M, pattern) if k.sym else None
    kw = {} if default else {"limit": lim}
    try:
        S = k.call(k.get(SH), k.anyunit(M, "kg", "M"), n, k.anyunit(fov * 1000, "m", "fov"), **kw)
    except RuntimeError:
        if k.sym:
            raise
        raise Reject()          # newton did not converge from its starting point
    return S, ext, M, fov, lim, bc


@harness("H02", variants=[{"n": len(p), "pattern": p} for p in ("r", "c", "rr", "rc", "cr", "rcr")] + [{"n": 2, "pattern": "rr", "default": True}], bounded="1..3 rays", mode="sym",
         target=SH + ".__init__," + SH + "._compute_B," + SH + "._root_equation," + SH + "._intensity," + SH + "._intensity_from_event_horizon," + SH + "._intensity_blue_sch," + SH + "._intensity_red_sch")
def rays(k, n, pattern, default=False):
    S, ext, M, fov, lim, bc = shadow(k, n, pattern, default)
    want_b = linspace(k, bc, fov, n)
    k.equal("impact parameters", S.b, k.array(want_b))
    k.true("one turning point per impact parameter", len(ext.roots) == n)
    for i, (z, x, val) in enumerate(ext.roots):
        k.equal("turning-point equation", val, x / k.sqrt(1 - 2 * M / x) - want_b[i])
    kept = [i for i in range(n) if pattern[i] == "r"]
    k.true("rays with a real turning point are kept", len(S.z) == len(kept) and len(S.bfin) == len(kept))
    for j, i in enumerate(kept):
        k.equal("kept impact parameter", S.bfin[j], want_b[i])
        k.equal("impact parameter of the turning point", S.z[j][0], want_b[i])
        k.equal("turning point", S.z[j][1], ext.roots[i][0])
    m = len(kept)
    inner = linspace(k, lim, bc, m)
    k.equal("inner impact parameters", k.array(list(S.b2)), k.array(inner))
    k.true("one intensity per plotted impact parameter", len(S.intensity) == 2 * m and len(S.fb1) == 2 * m and len(S.fb2) == 2 * m)
    q = k.pos("q")
    for j in range(2 * m):
        b = inner[j] if j < m else want_b[kept[j - m]]
        lo = 2 * M if j < m else ext.roots[kept[j - m]][0]
        red, blue = integrand(k, M, q, b)
        k.equal("plotted impact parameter", S.fb1[j], b)
        k.equal("mirrored impact parameter", S.fb2[j], -b)
        total, rest = num(k, 0), T.lift_or_fail(S.intensity[j])
        for Q, a, e, F in ext.quads:
            c = k.diff(S.intensity[j], Q)
            rest = rest - c * Q
            if isinstance(c, T.Sym) and c.op == "const" and c.args[0] == 0:
                continue
            k.equal("integration limits (sum)", a + e, lo + fov)
            k.equal("integration limits (product)", a * e, lo * fov)
            total = total + c * (e - a) / (fov - lo) * F
        k.equal("nothing but the integrals", rest, num(k, 0))
        k.equal("integrated intensity", total, red if j < m else red - blue)


@harness("H02", variants=[{"n": n} for n in (3, 20, 60)] + [{"n": 20, "default": True}], mode="concrete", runs=6)
def rays_concrete(k, n, default=False):
    S, _, M, fov, lim, bc = shadow(k, n, default=default)
    b = np.linspace(bc, fov, n)
    k.equal("impact parameters", S.b, b)
    m = len(S.bfin)
    k.true("every kept ray has a turning point", len(S.z) == m)
    it = iter(b)
    k.true("kept rays are among the sampled ones, in order", all(any(abs(x - y) <= 1e-9 * x for y in it) for x in S.bfin))
    inner = np.linspace(lim, bc, m)
    outer = []
    for j in range(m):
        bj, z = float(S.z[j][0]), float(S.z[j][1])
        k.equal("impact parameter of the turning point", bj, S.bfin[j])
        if z > 2 * M:
            k.equal("turning point", z / np.sqrt(1 - 2 * M / z), bj, tol=1e-4)
        outer.append(quad(k, lambda r: np.subtract(*integrand(k, M, r, bj)), z, fov))
    fb = list(inner) + [float(x) for x in S.bfin]
    k.equal("plotted impact parameters", S.fb1, np.array(fb))
    k.equal("mirrored impact parameters", S.fb2, -np.array(fb))
    low = [quad(k, lambda r: integrand(k, M, r, x)[0], 2 * M, fov) for x in inner]
    want = np.array(low + outer)
    if np.all(np.isfinite(want)):
        k.equal("integrated intensity", np.array(S.intensity), want, tol=1e-5)
    if m >= 3:
        I = np.array(S.intensity)
        fb1 = np.array(S.fb1)
        if len(set(fb1)) != len(fb1):
            return
        k.call(S.smoothen, 40)
        x = np.linspace(fb1.min(), fb1.max(), 40)
        k.equal("smoothened grid", S.fb1, x)
        k.equal("smoothened grid mirrored", S.fb2, -x)
        k.true("one smoothened intensity per point", len(S.intensity) == 40)
        from scipy.interpolate import interp1d
        if np.all(np.isfinite(I)):
            k.equal("smoothened intensity", S.intensity, interp1d(fb1, I, kind="cubic")(x), tol=1e-6)


@harness("H02", target=SH + "._root_equation," + SH + "._intensity_blue_sch," + SH + "._intensity_red_sch")
def integrands(k):
    """every mass, radius and impact parameter for which the ray exists"""
    M = k.pos("M", sample=lambda rng, env: rng.choice([1.0, 0.5, 2.0, rng.uniform(0.2, 5)]))
    S = k.get(SH).__new__(k.get(SH))
    S.mass = k.q(M, "kg")
    r = k.pos("r", sample=lambda rng, env: (env.get("M") or 1) * rng.uniform(2.5, 40))
    b = k.pos("b", sample=lambda rng, env: (env.get("r") or 1) * rng.uniform(0, 1))
    k.assume(r > 2 * M)
    k.equal("turning-point equation", k.call(S._root_equation, r, b), r / k.sqrt(1 - 2 * M / r) - b)
    k.assume(1 - b ** 2 * (1 - 2 * M / r) / r ** 2 > 0)
    red, blue = integrand(k, M, r, b)
    k.equal("red-shifted integrand", k.call(S._intensity_red_sch, r, b), red)
    k.equal("blue-shifted integrand", k.call(S._intensity_blue_sch, r, b), blue)


@harness("H02", variants=[{"n": 2, "points": p} for p in (2, 7, None)], bounded="2 rays", mode="sym", target=SH + ".smoothen")
def smoothing(k, n, points):
    S, ext, M, fov, lim, bc = shadow(k, n, "r" * n)
    x, y = list(S.fb1), list(S.intensity)
    if points is None:
        k.call(S.smoothen)
        points = len(S.fb1)
    else:
        k.call(S.smoothen, points=points)
    k.true("one interpolation", len(ext.interp) == 1)
    ix, iy, kind, *calls = ext.interp[0]
    k.true("cubic interpolation", kind == "cubic" or kind == 3)
    k.equal("interpolates in the impact parameter", k.array(ix), k.array(x))
    k.equal("interpolates the intensity", k.array(iy), k.array(y))
    k.true("evaluated once", len(calls) == 1)
    new, out = calls[0]
    grid = linspace(k, lim, fov, points)
    k.equal("interpolated at an even grid over the sampled range", k.array(list(new)), k.array(grid))
    k.equal("smoothened impact parameters", k.array(list(S.fb1)), k.array(grid))
    k.equal("mirrored", k.array(list(S.fb2)), k.array([-v for v in grid]))
    k.true("intensity replaced by the interpolated values", len(S.intensity) == points and all(a is o or T.lift_or_fail(a).id == T.lift_or_fail(o).id for a, o in zip(S.intensity, out)))


@harness("H02", mode="sym", generic=True, variants=[{"points": "given"}, {"points": "default"}], target=SH + ".smoothen")
def smoothing_any_number(k, points):
    """any list of sampled impact parameters and intensities, any number of points"""
    M, fov, lim, bc = setup(k)
    n = k.pos("n")
    k.assume(n >= 1)
    ext = Anywhere(k, M)
    S = k.get(SH).__new__(k.get(SH))
    x = Seq(n, lambda i: T.app("sampled", [i]))
    y = Seq(n, lambda i: T.app("intensity", [i]))
    S.fb1, S.intensity, S.fb2 = GList.of(x), GList.of(y), GList.of(-x)
    lo, hi = extremum("min", x), extremum("max", x)
    if points == "given":
        p = k.pos("points")
        k.assume(p >= 1)
        if k.choose():
            k.call(S.smoothen, p)
        else:
            k.call(S.smoothen, points=p)
    else:
        p = T.const(500)
        k.call(S.smoothen)
    k.true("one interpolation, evaluated once", len(ext.interp) == 1 and len(ext.interp[0]) == 4)
    ix, iy, kind, (new, out) = ext.interp[0]
    k.true("cubic interpolation", kind == "cubic" or kind == 3)
    k.equal("as many abscissae as sampled", length(ix), n)
    k.equal("as many ordinates as sampled", length(iy), n)
    j = k.real("j", "nonneg")
    k.assume(j <= n - 1)
    k.equal("interpolates in the impact parameter", gen(ix).at(j), x.at(j))
    k.equal("interpolates the intensity", gen(iy).at(j), y.at(j))
    for name, got in (("points", new), ("smoothened impact parameters", S.fb1), ("mirrored", S.fb2), ("smoothened intensities", S.intensity)):
        k.equal("number of " + name, length(got), p)
    if points == "given":
        i = k.real("i", "nonneg")
        k.assume(i <= p - 1)
        at = [i]
    else:
        at = [T.const(c) for c in (0, 1, 250, 498, 499)]
    for i in at:
        want = at_linspace(k, lo, hi, p, i)
        get = (lambda s: element(s, i)) if points == "given" else (lambda s: s[int(i.args[0])])
        k.equal("interpolated at an even grid over the sampled range", get(new), want)
        k.equal("smoothened impact parameter", get(S.fb1), want)
        k.equal("mirrored impact parameter", get(S.fb2), -want)
        k.equal("intensity replaced by the interpolated value", get(S.intensity), T.app("spline", [want]))
