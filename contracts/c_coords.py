import math
from engine.registry import contract, harness
from .common import *

CONV = "einsteinpy.coordinates.conversion:"
U = "einsteinpy.coordinates.utils:"
KIND = {"Cartesian": "CartesianConversion", "Spherical": "SphericalConversion", "BoyerLindquist": "BoyerLindquistConversion"}
METHOD = {"Cartesian": "convert_cartesian", "Spherical": "convert_spherical", "BoyerLindquist": "convert_bl"}
PAIRS = [(a, b) for a in KIND for b in KIND if a != b]
OBJ = {"Cartesian": "to_cartesian", "Spherical": "to_spherical", "BoyerLindquist": "to_bl"}
DIFF = {"Cartesian": "cartesian_differential", "Spherical": "spherical_differential", "BoyerLindquist": "bl_differential"}
UTIL = ",".join(U + n for n in ("cartesian_to_spherical_fast", "cartesian_to_spherical", "cartesian_to_spherical_novel", "cartesian_to_bl_fast",
                                "cartesian_to_bl", "cartesian_to_bl_novel", "spherical_to_cartesian_fast", "spherical_to_cartesian",
                                "spherical_to_cartesian_novel", "bl_to_cartesian_fast", "bl_to_cartesian", "bl_to_cartesian_novel"))


def to_cart(k, p, al):
    r, th, ph = p
    R = k.sqrt(r ** 2 + al ** 2)
    return [R * k.sin(th) * k.cos(ph), R * k.sin(th) * k.sin(ph), r * k.cos(th)]


def push(k, p, v, al):
    """time derivative of to_cart along (p, v)"""
    r, th, ph = p
    vr, vt, vp = v
    R = k.sqrt(r ** 2 + al ** 2)
    s, c, sp, cp = k.sin(th), k.cos(th), k.sin(ph), k.cos(ph)
    return [r / R * vr * s * cp + R * c * cp * vt - R * s * sp * vp,
            r / R * vr * s * sp + R * c * sp * vt + R * s * cp * vp,
            c * vr - r * s * vt]


def dist(rng, env):
    return rng.choice([0.0, rng.uniform(-8, 8), rng.uniform(-8, 8), rng.uniform(-8, 8), -1.0, 2.0])


def inputs(k, src, alpha, off_axis):
    """(t, position, velocity) of the source chart"""
    t = k.real("t")
    if src == "Cartesian":
        p = [k.real(n, sample=dist) for n in "xyz"]
        x, y, z = p
        if off_axis:
            k.assume(x ** 2 + y ** 2 > 0)
            keep(k, x ** 2 + y ** 2, x ** 2 + y ** 2 + z ** 2, 1e-3)
        else:
            k.assume(x ** 2 + y ** 2 + z ** 2 > 0)
        if alpha is not None:
            # away from the disc r = 0
            k.assume(k.either(z != 0, x ** 2 + y ** 2 > alpha ** 2))
            keep(k, abs(z) + max(0, (x ** 2 + y ** 2 - alpha ** 2)) if not k.sym else 1, 1 + alpha, 0.02)
    else:
        p = [radius(k, "r"), k.polar("th"), k.azimuth("ph")]
    v = [k.real("v%d" % i) for i in range(3)]
    return t, p, v


def off_disc(k, src, dst, p, al):
    """the disc r_BL = 0 is the image of theta = pi/2, r <= alpha"""
    if src == "Spherical" and dst == "BoyerLindquist":
        k.assume(k.either(k.cos(p[1]) != 0, p[0] > al))
        keep(k, abs(k.cos(p[1])) + max(0, p[0] - al) if not k.sym else 1, 1, 0.02)


def build(k, src, t, p, v):
    return k.call(k.get(CONV + KIND[src]), t, *(list(p) + (list(v) if v is not None else [])))


def convert(k, src, dst, obj, kw):
    return k.call(getattr(obj, METHOD[dst]), **kw)


def alpha_of(k, src, dst):
    if "BoyerLindquist" in (src, dst):
        M, a = mass(k), spin(k)
        return dict(M=M, a=a), a * gm(k, M)
    return {}, None


VAR = [{"src": a, "dst": b, "vel": v} for a, b in PAIRS for v in (False, True)]


@harness("C01", variants=VAR, contracts=["alpha"], target=UTIL, budget=150)
def position_conversion(k, src, dst, vel):
    kw, al = alpha_of(k, src, dst)
    t, p, v = inputs(k, src, al, off_axis=vel)
    off_disc(k, src, dst, p, al)
    out = convert(k, src, dst, build(k, src, t, p, v if vel else None), kw)
    k.true("number of components", len(out) == (7 if vel else 4))
    k.equal("t is preserved", out[0], t)
    q = list(out[1:4])
    zero = k.array([0, 0, 0])[0]
    a_src = al if src == "BoyerLindquist" else zero
    a_dst = al if dst == "BoyerLindquist" else zero
    csrc = p if src == "Cartesian" else to_cart(k, p, a_src)
    cdst = q if dst == "Cartesian" else to_cart(k, q, a_dst)
    L = None if k.sym else max(abs(float(x)) for x in csrc)
    for n, g, w in zip("xyz", cdst, csrc):
        k.equal("defining relation for %s" % n, g, w, scale=L)
    if dst != "Cartesian":
        r, th, ph = q
        k.true("r >= 0", r >= 0)
        k.true("theta >= 0", th >= 0)
        k.true("theta <= pi", th <= k.pi)
        k.true("phi > -pi", ph > -k.pi)
        k.true("phi <= pi", ph <= k.pi)


@harness("C01", variants=VAR, contracts=["alpha"], target=UTIL, budget=150)
def position_round_trip(k, src, dst, vel):
    kw, al = alpha_of(k, src, dst)
    t, p, v = inputs(k, src, al, off_axis=vel)
    off_disc(k, src, dst, p, al)
    out = convert(k, src, dst, build(k, src, t, p, v if vel else None), kw)
    back = convert(k, dst, src, build(k, dst, out[0], out[1:4], out[4:] if vel else None), kw)
    L = None if k.sym else max(abs(float(x)) for x in p)
    k.equal("round trip time", back[0], t)
    for i in range(3):
        if not k.sym and src != "Cartesian" and i == 2:
            d = (float(back[3]) - float(p[2]) + math.pi) % (2 * math.pi) - math.pi
            k.equal("round trip position[2]", d, 0.0, scale=1e3)
        else:
            k.equal("round trip position[%d]" % i, back[1 + i], p[i], scale=None if k.sym else 100 * L)
    if vel:
        V = None if k.sym else 1e4 * max(1e-3, *[abs(float(x)) for x in v])
        for i in range(3):
            k.equal("round trip velocity[%d]" % i, back[4 + i], v[i], scale=V)


@harness("C02", variants=[{"src": a, "dst": b} for a, b in PAIRS], contracts=["alpha"], target=UTIL, budget=200)
def velocity_conversion(k, src, dst):
    kw, al = alpha_of(k, src, dst)
    t, p, v = inputs(k, src, al, off_axis=True)
    off_disc(k, src, dst, p, al)
    out = convert(k, src, dst, build(k, src, t, p, v), kw)
    q, w = list(out[1:4]), list(out[4:7])
    zero = k.array([0, 0, 0])[0]
    a_src = al if src == "BoyerLindquist" else zero
    a_dst = al if dst == "BoyerLindquist" else zero
    if src == "Cartesian":
        want = v
    else:
        want = push(k, p, v, a_src)
        if k.sym:
            tc = to_cart(k, p, a_src)
            for i in range(3):
                k.equal("lemma: push-forward[%d] is the time derivative" % i, want[i], sum(k.diff(tc[i], p[j]) * v[j] for j in range(3)))
    got = w if dst == "Cartesian" else push(k, q, w, a_dst)
    V = None if k.sym else 1e3 * max(1e-6, *[abs(float(x)) for x in want])
    for i in range(3):
        k.equal("velocity[%d] is the push-forward" % i, got[i], want[i], scale=V)


@harness("C02", variants=[{"src": a, "dst": b} for a, b in PAIRS], contracts=["alpha"], target=UTIL, budget=200)
def velocity_round_trip(k, src, dst):
    position_round_trip(k, src, dst, True)


@harness("C01", "C02", variants=[{"src": a, "dst": b} for a, b in PAIRS if "BoyerLindquist" in (a, b)], target=CONV)
def missing_parameters(k, src, dst):
    """a Boyer-Lindquist conversion without M or a is refused"""
    t, p, v = inputs(k, src, None, True)
    o = build(k, src, t, p, None)
    k.raises("no parameters", "KeyError", getattr(o, METHOD[dst]))
    k.raises("no spin", "KeyError", getattr(o, METHOD[dst]), M=k.pos("m"))
    k.raises("no mass", "KeyError", getattr(o, METHOD[dst]), a=k.real("a", "unit"))


# ------------------------------------------------------------------ C03 coordinate objects
SYS = list(KIND)


def dims(src, vel):
    u = UNITS[src]
    return u if vel else u[:4]


def obj_inputs(k, src, vel, alpha):
    t, p, v = inputs(k, src, alpha, True)
    vals = [t] + list(p) + (list(v) if vel else [])
    qs = [k.anyunit(x, un, "u%d" % i) for i, (x, un) in enumerate(zip(vals, dims(src, vel)))]
    return vals, qs


def obj_class(k, src, vel):
    return k.get("einsteinpy.coordinates:" + (COORD[src] if vel else src))


@harness("C03", variants=[{"src": s, "vel": v} for s in SYS for v in (False, True)], target="einsteinpy.coordinates.core,einsteinpy.coordinates.differential")
def object_fields(k, src, vel):
    vals, qs = obj_inputs(k, src, vel, None)
    o = k.call(obj_class(k, src, vel), *qs)
    k.true("system tag", o.system == src)
    pos = k.call(o.position)
    k.true("position has four components", len(pos) == 4)
    k.equal("position()[0] = c t", pos[0], k.c * vals[0])
    for i in range(1, 4):
        k.equal("position()[%d]" % i, pos[i], vals[i])
    out = k.call(o.values)
    k.true("values() has all components", len(out) == len(vals))
    for i, v in enumerate(vals):
        k.equal("values()[%d]" % i, out[i], v)
    for n, qv in zip(FIELDS[src], qs):
        k.equal("attribute %s" % n, getattr(o, n), qv)
    if hasattr(o, "__getitem__"):
        for i, n in enumerate(FIELDS[src][:4]):
            k.equal("item %s" % n, k.call(o.__getitem__, n), qs[i])
            k.equal("item %d" % i, k.call(o.__getitem__, i), qs[i])
        k.true("item system", k.call(o.__getitem__, "system") == src)
    else:
        k.true("subscriptable", vel)
    k.true("printable", isinstance(str(o), str) and isinstance(repr(o), str))


@harness("C03", variants=[{"src": a, "dst": b, "vel": v} for a, b in PAIRS for v in (False, True)], contracts=["alpha"], target="einsteinpy.coordinates.core,einsteinpy.coordinates.differential")
def object_conversion(k, src, dst, vel):
    kw, al = alpha_of(k, src, dst)
    vals, qs = obj_inputs(k, src, vel, al)
    off_disc(k, src, dst, vals[1:4], al)
    o = k.call(obj_class(k, src, vel), *qs)
    kq = {}
    if kw:
        kq = dict(M=k.anyunit(kw["M"], "kg", "M"), a=k.q(kw["a"], ""))
    r = k.call(getattr(o, (DIFF if vel else OBJ)[dst]), **kq)
    k.true("advertised class", isinstance(r, obj_class(k, dst, vel)))
    k.true("system tag", r.system == dst)
    raw = build(k, src, vals[0], vals[1:4], vals[4:] if vel else None)
    want = convert(k, src, dst, raw, kw)
    V = None if k.sym else max(1.0, *[abs(float(x)) for x in vals[1:]])
    for n, un, w in zip(FIELDS[dst], dims(dst, vel), want):
        k.equal("component %s" % n, getattr(r, n), k.q(w, un), scale=V)


@harness("C03", variants=[{"src": s, "vel": v} for s in SYS for v in (False, True)], target="einsteinpy.coordinates.core,einsteinpy.coordinates.differential")
def object_units_rejected(k, src, vel):
    t, p, v = inputs(k, src, None, True)
    vals = [t] + list(p) + (list(v) if vel else [])
    un = dims(src, vel)
    cls = obj_class(k, src, vel)
    for i in range(len(vals)):
        for wrong in ("kg", "m" if un[i] != "m" else "s"):
            qs = [k.q(x, wrong if j == i else un[j]) for j, x in enumerate(vals)]
            k.raises("component %d in %s rejected" % (i, wrong), "UnitsError", cls, *qs)
        k.raises("component %d without unit rejected" % i, "TypeError", cls, *[x if j == i else k.q(x, un[j]) for j, x in enumerate(vals)])


# ------------------------------------------------------------------ C04 four-velocity
def generic_cov(k):
    F = {}
    for i in range(4):
        for j in range(i, 4):
            F[i, j] = F[j, i] = k.fun("g%d%d" % (i, j), 4)
    off = {}
    for i in range(4):
        for j in range(i, 4):
            off[i, j] = off[j, i] = k.real("s%d%d" % (i, j), sample=(lambda rng, env, d=(i == j), f=(i == 0): (env["c"] ** 2 * 0.3 if f else -3.0 * rng.choice([1, env["c"] ** 2])) if d else rng.uniform(-0.3, 0.3) * rng.choice([1, env["c"], env["c"] ** 2])))

    def cov(y):
        r = k.np.zeros((4, 4))
        for i in range(4):
            for j in range(4):
                r[i, j] = off[i, j] + F[i, j](*y)
        return r
    return cov


@harness("C04", variants=[{"src": s} for s in SYS], target=",".join("einsteinpy.coordinates.differential:%s.velocity" % c for c in COORD.values()) + "," + U + "v0")
def four_velocity(k, src):
    vals, qs = obj_inputs(k, src, True, None)
    o = k.call(obj_class(k, src, True), *qs)
    cov = generic_cov(k)
    pos = [k.c * vals[0]] + vals[1:4]
    g = cov(pos)
    v = vals[4:]
    C = sum(g[1 + i, 1 + j] * v[i] * v[j] for i in range(3) for j in range(3)) - k.c ** 2
    k.assume(g[0, 0] > 0)
    k.assume(C < 0)
    m = k.call(k.get("einsteinpy.metric:BaseMetric"), o, k.q(mass(k), "kg"), metric_cov=cov)
    u = k.call(o.velocity, m)
    k.true("four components", len(u) == 4)
    for i in range(3):
        k.equal("spatial component %d" % (i + 1), u[1 + i], v[i])
    n = sum(g[i, j] * u[i] * u[j] for i in range(4) for j in range(4))
    k.equal("g(u,u) = c^2", n, k.c ** 2, scale=None if k.sym else 1e2 * k.c ** 2)
    k.true("future directed", u[0] > 0)
    k.equal("v_t attribute", o.v_t, k.q(u[0], "m/s"))


@harness("C04", variants=[{"which": w} for w in ("Schwarzschild", "Kerr", "KerrNewman")], contracts=["alpha", "sigma", "delta", "rho", "schwarzschild_radius"],
         target="einsteinpy.coordinates.differential")
def four_velocity_builtin(k, which):
    s = setup(k, which)
    src = "Spherical" if which == "Schwarzschild" else "BoyerLindquist"
    v = [k.real("v%d" % i) for i in range(3)]
    vals = [s["x"][0], s["x"][1], s["x"][2], s["x"][3]] + v
    o = k.call(obj_class(k, src, True), *[k.q(x, un) for x, un in zip(vals, UNITS[src])])
    g = s["g"]
    C = sum(g[1 + i, 1 + j] * v[i] * v[j] for i in range(3) for j in range(3)) - k.c ** 2
    k.assume(g[0, 0] > 0)
    k.assume(C < 0)
    u = k.call(o.velocity, s["m"])
    for i in range(3):
        k.equal("spatial component %d" % (i + 1), u[1 + i], v[i])
    n = sum(g[i, j] * u[i] * u[j] for i in range(4) for j in range(4))
    k.equal("g(u,u) = c^2", n, k.c ** 2, scale=None if k.sym else 1e2 * k.c ** 2)


@harness("C04", variants=[{"src": s, "other": x} for s in SYS for x in SYS if x != s], target="einsteinpy.coordinates.differential")
def velocity_wrong_system(k, src, other):
    vals, qs = obj_inputs(k, src, True, None)
    o = k.call(obj_class(k, src, True), *qs)
    m = k.call(k.get("einsteinpy.metric:BaseMetric"), coords(k, other), k.q(mass(k), "kg"), metric_cov=lambda y: k.np.eye(4))
    k.raises("metric in another coordinate system", "CoordinateError", o.velocity, m)


@harness("C04", target=U + "lorentz_factor")
def lorentz(k):
    vs = lambda rng, env: rng.choice([0.0, rng.uniform(-0.57, 0.57) * env["c"], 1.0])
    v = [k.real("v%d" % i, sample=vs) for i in range(3)]
    n2 = v[0] ** 2 + v[1] ** 2 + v[2] ** 2
    k.assume(n2 < k.c ** 2)
    k.equal("gamma", k.call(k.get(U + "lorentz_factor"), *v), 1 / k.sqrt(1 - n2 / k.c ** 2))
