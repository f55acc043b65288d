from engine.registry import harness
from .common import *

BO = "einsteinpy.bodies:"
DI = "einsteinpy.coordinates.differential:"
EX = "einsteinpy.utils.exceptions:"
CO = "einsteinpy.constant:"
CLASSES = {"Cartesian": (("x", "y", "z"), ("v_x", "v_y", "v_z"), ("m", "m", "m"), ("m/s", "m/s", "m/s")),
           "Spherical": (("r", "theta", "phi"), ("v_r", "v_th", "v_p"), ("m", "rad", "rad"), ("m/s", "rad/s", "rad/s")),
           "BoyerLindquist": (("r", "theta", "phi"), ("v_r", "v_th", "v_p"), ("m", "rad", "rad"), ("m/s", "rad/s", "rad/s"))}


def coords(k, cls):
    pos, vel, pu, vu = CLASSES[cls]
    p = [k.q(k.real(n), u) for n, u in zip(pos, pu)]
    v = [k.q(k.real(n), u) for n, u in zip(vel, vu)]
    return k.call(k.get(DI + cls + "Differential"), k.q(k.real("t"), "s"), *p, *v), p, v


@harness("B01", variants=[{"cls": c} for c in CLASSES], target=BO + "Body.__post_init__")
def body_coordinates(k, cls):
    diff, p, v = coords(k, cls)
    B = k.get(BO + "Body")
    parent = k.call(B, name="parent", mass=k.anyunit(k.pos("M0"), "kg", "M0"))
    m, q, R = k.anyunit(k.pos("M"), "kg", "M"), k.anyunit(k.real("Q"), "C", "Q"), k.anyunit(k.pos("R"), "m", "R")
    b = k.call(B, name="body", mass=m, q=q, R=R, coords=diff, parent=parent)
    k.true("name", b.name == "body")
    k.true("parent", b.parent is parent)
    k.true("coords", b.coords is diff)
    k.equal("mass", b.mass, m)
    k.equal("charge", b.q, q)
    k.equal("radius", b.R, R)
    k.true("three positions, three velocities", len(b.pos_vec) == 3 and len(b.vel_vec) == 3)
    for i in range(3):
        k.equal("position %d" % i, b.pos_vec[i], p[i])
        k.equal("velocity %d" % i, b.vel_vec[i], v[i])
    # bodies do not share state
    diff2, p2, v2 = diff, p, v
    b2 = k.call(B, name="other", mass=m)
    k.true("defaults are those of a fresh body", b2.parent is None and b2.coords is None)
    k.equal("default charge", b2.q, k.q(0, "C"))
    k.equal("default radius", b2.R, k.q(0, "m"))
    k.equal("first body keeps its mass", b.mass, m)
    b3 = k.call(B)
    k.true("default name", b3.name == "Generic Body")
    k.equal("default mass", b3.mass, k.q(0, "kg"))


@harness("B01", target=BO + "Body.__post_init__")
def body_units(k):
    B = k.get(BO + "Body")
    x = k.real("x")
    good = {"mass": "kg", "q": "C", "R": "m"}
    for f, u in good.items():
        for other in ("kg", "C", "m", "s", "rad", "J", "kg/m"):
            if other != u:
                k.raises("%s in %s" % (f, other), "UnitsError", B, name="b", **{f: k.q(x, other)})
        k.raises("%s as a plain number" % f, "TypeError", B, name="b", **{f: x})
        b = k.call(B, name="b", **{f: k.anyunit(x, u, f)})
        k.equal("%s in any compatible unit" % f, getattr(b, f), k.q(x, u))


NAMES = ("Sun", "Earth", "Moon", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto")


@harness("B01", target=BO + "Body")
def predefined_bodies(k):
    for n in NAMES:
        b = k.get(BO + n)
        k.true("name of %s" % n, b.name == n)
        par = None if n == "Sun" else k.get(BO + ("Earth" if n == "Moon" else "Sun"))
        k.true("parent of %s" % n, b.parent is par)
        k.true("mass of %s" % n, si(b.mass) > 0)
        k.true("radius of %s" % n, si(b.R) > 0)
        k.equal("charge of %s" % n, b.q, k.q(0, "C"))


@harness("B01", target=CO + "coulombs_const")
def constants(k):
    k.equal("speed of light", si(k.get(CO + "c")), k.c)
    k.equal("gravitational constant", si(k.get(CO + "G")), k.G)
    k.equal("Coulomb constant 1/(4 pi eps0)", si(k.get(CO + "coulombs_const")), k.ke)
    e = si(k.get(CO + "eps0"))
    k.equal("4 pi eps0 k_e = 1", 4 * k.pi * e * si(k.get(CO + "coulombs_const")), 1)
    k.equal("cosmological constant", k.get(CO + "Cosmo_Const"), k.q(2.036e-35, "1/s2"))
    k.equal("solar mass", k.get(CO + "Solar_Mass"), k.q(1.9891e30, "kg"))
    k.equal("solar radius", k.get(CO + "R_sun"), k.q(695510000, "m"))


@harness("B01", target=EX + "BaseError.__init__," + EX + "CoordinateError.__init__")
def errors(k):
    for cls in ("BaseError", "CoordinateError"):
        E = k.get(EX + cls)
        for args in ((), ("a",), ("a", 3), ("x", None, 2.5, ("t", 1)), ("", " ", "z"), tuple(range(7))):
            e = k.call(E, *args)
            k.true("%s is an exception" % cls, isinstance(e, Exception) and isinstance(e, k.get(EX + "BaseError")))
            k.true("%s message joins its arguments" % cls, e.message == " ".join(str(i) for i in args))
            k.true("%s prints class and message" % cls, str(e) == repr(e) == cls + " : " + " ".join(str(i) for i in args))
        e = k.call(E, "a", extra=1)
        k.true("keywords accepted", e.message == "a")
