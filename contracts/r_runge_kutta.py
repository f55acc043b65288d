from engine.registry import harness
from .common import *

RK = "einsteinpy.integrators.runge_kutta:"


def rhs(k, kind):
    """an arbitrary right-hand side f(t, y) and an arbitrary state"""
    if kind == "scalar":
        f = k.fun("F", 2)
        return (lambda t, y: f(t, y)), k.real("y0"), k.real("y")
    fs = [k.fun("F%d" % i, 3) for i in range(2)]
    return (lambda t, y: k.array([f(t, y[0], y[1]) for f in fs])), k.array([k.real("y0_0"), k.real("y0_1")]), k.array([k.real("y_0"), k.real("y_1")])


def bounds(k, forward):
    t0, tb, h = k.real("t0"), k.real("t_bound"), k.pos("h")
    if forward == 1:
        k.assume(tb > t0)
    elif forward == -1:
        k.assume(tb < t0)
        h = -h
    else:
        tb = t0
    return t0, tb, h


def rk4(f, t, y, h):
    k1 = f(t, y)
    k2 = f(t + h / 2, y + h * k1 / 2)
    k3 = f(t + h / 2, y + h * k2 / 2)
    k4 = f(t + h, y + h * k3)
    return y + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def check_step(k, S, f, t, y, h, tb, forward):
    k.call(S.step)
    if "RuntimeWarning" in k.warned:
        k.true("stops only when the bound has been reached", t >= tb if forward >= 0 else t <= tb)
        k.equal("t unchanged at the bound", S.t, t)
        k.equal("y unchanged at the bound", S.y, y)
        return False
    k.true("goes on only while the bound has not been reached", t < tb if forward >= 0 else t > tb)
    k.equal("t advances by the step size", S.t, t + h)
    k.equal("y advances by the Runge-Kutta formula", S.y, rk4(f, t, y, h), tol=1e-5)
    return True


@harness("R01", variants=[{"kind": n, "forward": d} for n in ("scalar", "array") for d in (1, -1, 0)], target=RK + "RK4naive.step," + RK + "RK4naive.__init__")
def rk4_steps(k, kind, forward):
    """from the initial state"""
    f, y0, _ = rhs(k, kind)
    t0, tb, h = bounds(k, forward)
    S = k.call(k.get(RK + "RK4naive"), f, t0, y0, tb, h)
    k.equal("initial t", S.t, t0)
    k.equal("initial y", S.y, y0)
    t, y = t0, y0
    for _ in range(3):
        if not check_step(k, S, f, t, y, h, tb, forward):
            break
        t, y = S.t, S.y
    k.call(S.step)


@harness("R01", variants=[{"kind": n, "forward": d} for n in ("scalar", "array") for d in (1, -1, 0)], target=RK + "RK4naive.step")
def rk4_any_state(k, kind, forward):
    """inductive step: from any state the solver can be in"""
    f, y0, y = rhs(k, kind)
    t0, tb, h = bounds(k, forward)
    S = k.call(k.get(RK + "RK4naive"), f, t0, y0, tb, h)
    t = k.real("t")
    S.t, S.y = t, y
    if check_step(k, S, f, t, y, h, tb, forward):
        return
    for _ in range(2):
        k.call(S.step)
        k.true("keeps warning", "RuntimeWarning" in k.warned)
        k.equal("t stays", S.t, t)
        k.equal("y stays", S.y, y)


# ------------------------------------------------------------------ R02
def field(k):
    """a right-hand side that works on one state or a column of states"""
    a, b = k.real("fa"), k.real("fb", sample=lambda rng, env: rng.uniform(-1, 1))
    return lambda t, y: a + b * y + 0 * t


def rk45(k, given, sign=1):
    f = field(k)
    t0 = k.real("t0", sample=lambda rng, env: rng.uniform(-5, 5))
    h = k.pos("h", sample=lambda rng, env: 10 ** rng.uniform(-2, 0))
    tb = t0 + sign * k.pos("span", sample=lambda rng, env: rng.uniform(3, 20)) * (h if not k.sym else 1)
    y0 = k.array([k.real("y%d" % i, sample=lambda rng, env: rng.uniform(-3, 3)) for i in range(3)])
    kw = {}
    if given in ("rtol", "both"):
        kw["rtol"] = k.pos("rtol", sample=lambda rng, env: 10 ** rng.uniform(-6, -1))
    if given in ("atol", "both"):
        kw["atol"] = k.real("atol", "nonneg", sample=lambda rng, env: rng.choice([0.0, 10 ** rng.uniform(-6, -1)]))
    S = k.call(k.get(RK + "RK45"), f, t0, y0, tb, h, **kw)
    return S, f, t0, y0, tb, h, kw


@harness("R02", variants=[{"given": g, "sign": s} for g in ("none", "rtol", "atol", "both") for s in (1, -1)], target=RK + "RK45.__init__")
def rk45_setup(k, given, sign):
    S, f, t0, y0, tb, h, kw = rk45(k, given, sign)
    rtol = kw.get("rtol", h / 5)
    atol = kw.get("atol", rtol / 800)
    k.equal("first step", S.h_abs, h * 4 / 5)
    k.equal("largest step", S.max_step, 8 * h)
    k.equal("relative tolerance", S.rtol, rtol)
    k.equal("absolute tolerance", S.atol, atol)
    k.equal("initial t", S.t, t0)
    k.equal("initial y", S.y, y0)
    k.equal("bound", S.t_bound, tb)
    t, y = k.real("t"), k.array([k.real("z%d" % i) for i in range(3)])
    k.equal("right-hand side", S.fun(t, y), f(t, y))


@harness("R02", variants=[{"outcome": o} for o in ("running", "failed", "finished")], target=RK + "RK45.step", runs=10)
def rk45_step(k, outcome):
    S, f, t0, y0, tb, h, kw = rk45(k, "none")
    if outcome == "running":
        k.call(S.step)
        k.true("no warning while running", "RuntimeWarning" not in k.warned)
        if k.sym:
            k.true("exactly one solver step", S.steps_done == 1)
        else:
            k.true("moved towards the bound", t0 < S.t <= tb and S.t - t0 <= 8 * h * (1 + 1e-9))
        return
    if k.sym or outcome == "failed":
        k.call(S.step)
        S.status = outcome
    else:
        for _ in range(100000):
            if S.status != "running":
                break
            k.call(S.step)
        k.true("finished at the bound", S.status == "finished" and S.t == tb)
    t, y, st = S.t, S.y, S.status
    for _ in range(2):
        k.call(S.step)
        k.true("stepping a %s solver warns" % outcome, "RuntimeWarning" in k.warned)
        k.equal("t unchanged", S.t, t)
        k.equal("y unchanged", S.y, y)
        k.true("status unchanged", S.status == st)
