from engine.registry import harness
from .common import *

SF = "einsteinpy.utils.scalar_factor:"
ERAS = ("md", "rd", "ded")


class AnyStr:
    """an arbitrary string: comparing it with a literal is a branch"""
    __hash__ = None

    def __init__(self, k, name):
        self.k, self.code, self.known = k, k.real(name, sample=lambda rng, env: rng.choice([0, 1, 2, 3, 4, 17])), {}

    def __eq__(self, other):
        if not isinstance(other, str):
            return False
        n = self.known.setdefault(other, len(self.known))
        return self.code == n

    def __ne__(self, other):
        r = self == other
        return not r

    def concrete(self):
        pool = ["md", "rd", "ded", "MD", "", "matter", "d", "mdx", "ded "]
        return pool[int(abs(self.code)) % len(pool)]


def time(k):
    t = k.pos("t", sample=lambda rng, env: 10 ** rng.uniform(-2, 17))
    return t, k.anyunit(t, "s", "t")


def lam(k):
    return si(k.get("einsteinpy.constant:Cosmo_Const"))


def factor(k, era, t, c):
    third = T.const("1/3") if k.sym else 1 / 3
    half = T.const("1/2") if k.sym else 0.5
    H = k.sqrt(lam(k) / 3)
    if era == "md":
        return c * t ** (2 * third), 2 * third * c * t ** (-third)
    if era == "rd":
        return c * t ** half, half * c * t ** (-half)
    return c * k.exp(H * t), c * H * k.exp(H * t)


@harness("U01", variants=[{"era": e, "default": d} for e in ERAS for d in (False, True)], target=SF + "scalar_factor," + SF + "scalar_factor_derivative")
def scale_factor(k, era, default):
    t, tq = time(k)
    c = 1 if default else k.real("c0")
    kw = {} if default else {"tuning_param": c}
    if not (default and era == "md"):
        kw["era"] = era
    a = k.call(k.get(SF + "scalar_factor"), tq, **kw)
    d = k.call(k.get(SF + "scalar_factor_derivative"), tq, **kw)
    wa, wd = factor(k, era, t, c)
    k.equal("scale factor", a, wa)
    k.equal("derivative", d, wd)
    if k.sym:
        k.equal("derivative is d/dt of the scale factor", d, k.diff(a, t))
    x, y = (k.q(v, "s") for v in (t, t))
    k.equal("same instant in seconds", k.call(k.get(SF + "scalar_factor"), x, **kw), wa)
    k.equal("derivative, same instant in seconds", k.call(k.get(SF + "scalar_factor_derivative"), y, **kw), wd)


@harness("U01", variants=[{"f": f} for f in ("scalar_factor", "scalar_factor_derivative")], target=SF + "scalar_factor," + SF + "scalar_factor_derivative")
def unknown_era(k, f):
    t, tq = time(k)
    era = AnyStr(k, "era")
    if not k.sym:
        era = era.concrete()
        if era in ERAS:
            return
        k.raises("any other era is rejected", "ValueError", k.get(SF + f), tq, era)
        return
    # the code's own comparisons decide which strings are accepted
    fn = k.get(SF + f)
    try:
        k.raw(fn, tq, era)
    except ValueError:
        k.true("rejected", True)
        return
    accepted = [s for s, n in era.known.items() if s in ERAS]
    hit = False
    for s in accepted:
        hit = k.either(hit, era.code == era.known[s])
    k.true("only the three eras are accepted", hit)


@harness("U01", target=SF + "scalar_factor," + SF + "scalar_factor_derivative")
def time_needs_a_time_unit(k):
    t, tq = time(k)
    for f in ("scalar_factor", "scalar_factor_derivative"):
        for u in ("m", "kg", "1/s"):
            k.raises("%s of a quantity in %s" % (f, u), "UnitsError", k.get(SF + f), k.q(t, u))
        k.raises("%s of a plain number" % f, "TypeError", k.get(SF + f), t)
