import types
import warnings
from engine.registry import contract, harness
from engine.seq import Seq
from engine.ctx import Reject
from .common import *

GU = "einsteinpy.geodesic.utils:"
IU = "einsteinpy.integrators.utils:"
GI = "einsteinpy.integrators.fantasy:GeodesicIntegrator"
GEO = "einsteinpy.geodesic:"


# ------------------------------------------------------------------ vocabulary
def params(k, n=2):
    return tuple(k.real("prm%d" % i) for i in range(n))


class Metric:
    """an arbitrary symmetric contravariant metric, as a function of position and parameters;
    `cyclic` lists coordinates it does not depend on"""

    def __init__(self, k, nprm=2, cyclic=(), offsets=None, zero=()):
        self.k, self.nprm = k, nprm
        self.dep = [i for i in range(4) if i not in cyclic]
        self.zero = zero
        self.off = offsets
        self.F = {(i, j): smooth(k, "G%d%d" % (i, j), len(self.dep) + nprm) for i in range(4) for j in range(i, 4) if (i, j) not in zero}
        self.__name__ = "user_metric"

    def args(self, q, prm):
        return [q[i] for i in self.dep] + list(prm)

    def __call__(self, q, *prm):
        r = np.zeros((4, 4), dtype=object)
        for (i, j), f in self.F.items():
            v = f(*self.args(q, prm))
            if self.off is not None:
                v = v + self.off[i, j]
            r[i, j] = r[j, i] = v
        if not self.k.sym and not any(hasattr(x, "deriv") for x in r.flat):
            r = r.astype(float)
        return r

    def d(self, q, prm, wrt):
        """exact partial derivative"""
        k = self.k
        r = k.np.zeros((4, 4))
        if wrt in self.dep:
            for (i, j) in self.F:
                r[i, j] = r[j, i] = partial(k, "G%d%d" % (i, j), self.args(q, prm), self.dep.index(wrt))
        return r


def vec4(k, name, kinds=None):
    return k.array([k.real("%s%d" % (name, i)) for i in range(4)])


def H(g, q, p, prm):
    m = g(q, *prm)
    return sum(m[a, b] * p[a] * p[b] for a in range(4) for b in range(4)) / 2


def dHdp(g, q, p, prm):
    m = g(q, *prm)
    return [sum(m[a, b] * p[b] for b in range(4)) for a in range(4)]


def dHdq(g, q, p, prm):
    out = []
    for w in range(4):
        d = g.d(q, prm, w)
        out.append(sum(d[a, b] * p[a] * p[b] for a in range(4) for b in range(4)) / 2)
    return out


# ------------------------------------------------------------------ G01
def lorentzian(k, g, q, prm, p, tl):
    m = g(q, *prm)
    A = m[0, 0]
    b = sum(m[0, i] * p[i - 1] for i in range(1, 4))
    C = sum(m[i, j] * p[i - 1] * p[j - 1] for i in range(1, 4) for j in range(1, 4)) + (1 if tl else 0)
    k.assume(A < 0)
    k.assume(b ** 2 - A * C > 0)
    keep(k, b ** 2 - A * C, 1, 1e-3)
    keep(k, A, 1, 1e-3)
    return m


def offsets(k):
    off = {}
    for i in range(4):
        for j in range(i, 4):
            off[i, j] = k.real("off%d%d" % (i, j), sample=lambda rng, env, i=i, j=j: (rng.uniform(-6, -4) if i == 0 else rng.uniform(4, 6)) if i == j else rng.uniform(-0.5, 0.5))
    return off


def check_momentum(k, m, P, p, tl):
    k.true("four components", len(P) == 4)
    for i in range(3):
        k.equal("spatial momentum %d is kept" % (i + 1), P[i + 1], p[i])
    n = sum(m[i, j] * P[i] * P[j] for i in range(4) for j in range(4))
    k.equal("mass shell", n, -1 if tl else 0, scale=None if k.sym else 1e4)
    k.true("future directed", sum(m[0, i] * P[i] for i in range(4)) > 0)


@harness("G01", variants=[{"tl": t, "seq": s} for t in (True, False) for s in ("array", "list")], target=GU + "_P")
def initial_momentum(k, tl, seq):
    q, prm = vec4(k, "q"), params(k)
    g = Metric(k, offsets=offsets(k))
    p = [k.real("p%d" % i) for i in (1, 2, 3)]
    m = lorentzian(k, g, q, prm, p, tl)
    P = k.call(k.get(GU + "_P"), g, prm, q, k.array(p) if seq == "array" else p, tl)
    check_momentum(k, m, P, p, tl)


def builtin(k, which):
    """(function, parameters, textbook covariant metric as a function of position)"""
    a = spin(k, "a") if which != "Schwarzschild" else k.array([0])[0]
    Q = k.real("Q") if which == "KerrNewman" else k.array([0])[0]
    f = k.get(GU + {"Schwarzschild": "_sch", "Kerr": "_kerr", "KerrNewman": "_kerrnewman"}[which])
    prm = {"Schwarzschild": (), "Kerr": (a,), "KerrNewman": (a, Q)}[which]

    def cov(q):
        r, th = q[1], q[2]
        s2 = k.sin(th) ** 2
        sg = r ** 2 + a ** 2 * k.cos(th) ** 2
        dl = r ** 2 - 2 * r + a ** 2 + Q ** 2
        w = 2 * r - Q ** 2
        g = k.np.zeros((4, 4))
        g[0, 0] = -(1 - w / sg)
        g[0, 3] = g[3, 0] = -w * a * s2 / sg
        g[1, 1] = sg / dl
        g[2, 2] = sg
        g[3, 3] = (r ** 2 + a ** 2 + w * a ** 2 * s2 / sg) * s2
        return g

    def con(q):
        r, th = q[1], q[2]
        s2 = k.sin(th) ** 2
        sg = r ** 2 + a ** 2 * k.cos(th) ** 2
        dl = r ** 2 - 2 * r + a ** 2 + Q ** 2
        w = 2 * r - Q ** 2
        g = k.np.zeros((4, 4))
        g[0, 0] = -((r ** 2 + a ** 2) ** 2 - dl * a ** 2 * s2) / (sg * dl)
        g[0, 3] = g[3, 0] = -w * a / (sg * dl)
        g[1, 1] = dl / sg
        g[2, 2] = 1 / sg
        g[3, 3] = (dl - a ** 2 * s2) / (sg * dl * s2)
        return g

    def dl(q):
        return q[1] ** 2 - 2 * q[1] + a ** 2 + Q ** 2
    return f, prm, cov, con, dl, a, Q


BUILTIN = ("Schwarzschild", "Kerr", "KerrNewman")


def bl_point(k):
    return k.array([k.real("t"), k.pos("r", sample=lambda rng, env: rng.uniform(0.3, 12)), k.polar("th"), k.azimuth("ph")])


@harness("G01", variants=[{"which": w, "tl": t} for w in BUILTIN for t in (True, False)], target=GEO + "Geodesic.__init__," + GU + "_P", budget=120)
def geodesic_initial_state(k, which, tl):
    """the initial state of Timelike / Nulllike objects"""
    f, prm, cov, con, dl, a, Q = builtin(k, which)
    r, th, ph = k.pos("r", sample=lambda rng, env: rng.uniform(4, 12)), k.polar("th"), k.azimuth("ph")
    q = k.array([0, r, th, ph])
    # outside the ergosphere and the horizon g^tt < 0 and the spatial part is positive
    k.assume(r > 2)
    k.assume(dl(q) > 0)
    p = [k.real("p%d" % i) for i in (1, 2, 3)]
    m = con(q)
    k.assume(m[0, 0] < 0)
    b = m[0, 3] * p[2]
    C = m[1, 1] * p[0] ** 2 + m[2, 2] * p[1] ** 2 + m[3, 3] * p[2] ** 2 + (1 if tl else 0)
    k.assume(b ** 2 - m[0, 0] * C > 0)
    keep(k, b ** 2 - m[0, 0] * C, 1, 1e-3)
    cls = k.get(GEO + ("Timelike" if tl else "Nulllike"))
    if k.sym:
        # only the initial state is of interest here
        k.get(GI).step = lambda self: self.results.append([self.q0, self.p0, self.q0, self.p0])
    geod = k.call(cls, metric=which, metric_params=prm, position=[r, th, ph], momentum=p, steps=1, delta=0.01, suppress_warnings=True, return_cartesian=False)
    k.equal("initial 4-position", geod.position, q)
    P = geod.momentum
    for i in range(3):
        k.equal("spatial momentum %d is kept" % (i + 1), P[i + 1], p[i])
    n = sum(m[i, j] * P[i] * P[j] for i in range(4) for j in range(4))
    k.equal("mass shell", n, -1 if tl else 0, scale=None if k.sym else 1e4)
    k.true("future directed", m[0, 0] * P[0] + m[0, 3] * P[3] > 0)
    k.true("kind", geod.kind == ("Time-like" if tl else "Null-like") and geod.time_like == tl)


# ------------------------------------------------------------------ G02
@harness("G02", target=GU + "sigma," + GU + "delta")
def geodesic_helpers(k):
    r, th, a, Q = k.real("r"), k.real("th"), k.real("a"), k.real("Q")
    k.equal("sigma", k.call(k.get(GU + "sigma"), r, th, a), r ** 2 + a ** 2 * k.cos(th) ** 2)
    k.equal("delta", k.call(k.get(GU + "delta"), r, a, Q), r ** 2 - 2 * r + a ** 2 + Q ** 2)
    k.equal("delta, default charge", k.call(k.get(GU + "delta"), r, a), r ** 2 - 2 * r + a ** 2)


@harness("G02", variants=[{"which": w} for w in BUILTIN], target=",".join(GU + n for n in ("_sch", "_kerr", "_kerrnewman")))
def builtin_inverse(k, which):
    f, prm, cov, con, dl, a, Q = builtin(k, which)
    q = bl_point(k)
    k.assume(dl(q) != 0)
    keep(k, dl(q), q[1] ** 2)
    m = k.call(f, q, *prm)
    k.equal("components", m, con(q), scale=None if k.sym else 1.0)
    k.equal("symmetric", m, m.T)
    if k.sym:
        c = cov(q)
        for i in range(4):
            for j in range(4):
                k.equal("inverse of the textbook metric [%d,%d]" % (i, j), sum(m[i, n] * c[n, j] for n in range(4)), 1 if i == j else 0)


@harness("G02", variants=[{"which": w, "wrt": i} for w in BUILTIN for i in range(4)], target=",".join(GU + n for n in ("_sch", "_kerr", "_kerrnewman")))
def builtin_dual(k, which, wrt):
    """on dual positions the built-in metrics carry their exact derivative"""
    f, prm, cov, con, dl, a, Q = builtin(k, which)
    q = bl_point(k)
    k.assume(dl(q) != 0)
    keep(k, dl(q), q[1] ** 2, 0.05)
    D = k.get("einsteinpy.utils.dual:DualNumber")
    dq = [D(q[i], 1.0 if i == wrt else 0.0) for i in range(4)]
    m = k.call(f, dq, *prm)
    want = jacobian(k, con, q, [wrt], h={i: 1e-3 * min(1.0, abs(float(q[1]))) for i in range(4)} if not k.sym else None)[0]
    val = con(q)
    for i in range(4):
        for j in range(4):
            x = m[i, j]
            v, d = (x.val, x.deriv) if hasattr(x, "deriv") else (x, 0)
            k.equal("value[%d,%d]" % (i, j), v, val[i, j], scale=None if k.sym else 1.0)
            k.equal("derivative[%d,%d]" % (i, j), d, want[i, j], tol=1e-4, scale=None if k.sym else 1e3 * float(abs(want).max() + abs(val).max()))


@harness("G02", target=",".join(GU + n for n in ("_sch", "_kerr", "_kerrnewman")))
def builtin_limits(k):
    a = spin(k, "a")
    q = bl_point(k)
    k.assume(q[1] != 2)
    k.assume(q[1] ** 2 - 2 * q[1] + a ** 2 != 0)
    keep(k, q[1] - 2, q[1])
    keep(k, q[1] ** 2 - 2 * q[1] + a ** 2, q[1] ** 2)
    sch, kerr, kn = (k.get(GU + n) for n in ("_sch", "_kerr", "_kerrnewman"))
    k.equal("Kerr(0) = Schwarzschild", k.call(kerr, q, 0.0), k.call(sch, q), scale=None if k.sym else 1.0)
    k.equal("KerrNewman(a, 0) = Kerr(a)", k.call(kn, q, a, 0.0), k.call(kerr, q, a), scale=None if k.sym else 1.0)
    k.equal("Schwarzschild ignores parameters", k.call(sch, q, 0.3), k.call(sch, q))


# ------------------------------------------------------------------ G03
def flow_inputs(k, zero=()):
    g = Metric(k, zero=zero)
    prm = params(k)
    return g, prm, vec4(k, "q1_"), vec4(k, "p1_"), vec4(k, "q2_"), vec4(k, "p2_"), k.real("d", sample=lambda rng, env: rng.choice([0.5, rng.uniform(-0.5, 0.5), 0.0]))


@harness("G03", variants=[{"wrt": i} for i in range(4)], target=IU + "_PartHamFlow")
def partial_flow(k, wrt):
    g, prm, q, p, _, _, _ = flow_inputs(k)
    got = k.call(k.get(IU + "_PartHamFlow"), g, prm, q, p, wrt)
    k.equal("2 dH/dq", got, 2 * dHdq(g, q, p, prm)[wrt], tol=1e-5, scale=1e2)


@harness("G03", variants=[{"flow": f} for f in "AB"], target=IU + "_flow_A," + IU + "_flow_B")
def hamiltonian_flow(k, flow):
    g, prm, q1, p1, q2, p2, d = flow_inputs(k)
    F = k.get(IU + "_flow_" + flow)
    q, p = k.call(F, g, prm, q1, p1, q2, p2, d)
    if flow == "A":
        fq, fp, mq, mp = q1, p2, q2, p1
    else:
        fq, fp, mq, mp = q2, p1, q1, p2
    wq, wp = k.array([0] * 4) * d, k.array([0] * 4) * d
    hp, hq = dHdp(g, fq, fp, prm), dHdq(g, fq, fp, prm)
    for i in range(4):
        wq[i] = mq[i] + d * hp[i]
        wp[i] = mp[i] - d * hq[i]
    k.equal("position moves by delta dH/dp", q, wq, tol=1e-5, scale=1e2)
    k.equal("momentum moves by -delta dH/dq", p, wp, tol=1e-5, scale=1e2)
    if flow == "A":
        bq, bp = k.call(F, g, prm, q1, p, q, p2, -d)
    else:
        bq, bp = k.call(F, g, prm, q, p1, q2, p, -d)
    k.equal("flow(-delta) undoes the position", bq, mq, scale=1e2)
    k.equal("flow(-delta) undoes the momentum", bp, mp, scale=1e2)
    if flow == "A":
        eq, ep = k.call(F, g, prm, q1, p1, q2, p2)
        hq_, hp_ = k.call(F, g, prm, q1, p1, q2, p2, 0.5)
    else:
        eq, ep = k.call(F, g, prm, q1, p1, q2, p2)
        hq_, hp_ = k.call(F, g, prm, q1, p1, q2, p2, 0.5)
    k.equal("default step 0.5 (position)", eq, hq_)
    k.equal("default step 0.5 (momentum)", ep, hp_)


def symplectic(k, label, ins, outs):
    """M^T J M = J for the Jacobian M of outs(q1,p1,q2,p2) with respect to ins"""
    flat_in = [x for v in ins for x in v]
    flat_out = [x for v in outs for x in v]
    M = [[k.diff(o, x) for x in flat_in] for o in flat_out]

    def J(i, j):
        bi, bj = i // 4, j // 4
        if i % 4 != j % 4:
            return 0
        return {(0, 1): 1, (1, 0): -1, (2, 3): 1, (3, 2): -1}.get((bi, bj), 0)
    pairs = [(i, j, J(i, j)) for i in range(16) for j in range(16) if J(i, j)]
    for a in range(16):
        for b in range(a + 1, 16):
            s = 0
            for i, j, w in pairs:
                s = s + w * M[i][a] * M[j][b]
            k.equal("%s preserves the symplectic form [%d,%d]" % (label, a, b), s, J(a, b))


@harness("G03", variants=[{"flow": f} for f in "AB"], mode="sym", target=IU + "_flow_A," + IU + "_flow_B", budget=200)
def flow_symplectic(k, flow):
    g, prm, q1, p1, q2, p2, d = flow_inputs(k)
    q, p = k.call(k.get(IU + "_flow_" + flow), g, prm, q1, p1, q2, p2, d)
    outs = (q1, p, q, p2) if flow == "A" else (q, p1, q2, p)
    symplectic(k, "flow " + flow, (q1, p1, q2, p2), outs)


@harness("G03", target=IU + "_flow_mixed")
def mixed_flow(k):
    g, prm, q1, p1, q2, p2, d = flow_inputs(k)
    w = k.real("omega")
    F = k.get(IU + "_flow_mixed")
    out = k.call(F, q1, p1, q2, p2, d, w)
    C, S = k.cos(2 * w * d), k.sin(2 * w * d)
    qd, pd = q1 - q2, p1 - p2
    rq, rp = qd * C + pd * S, pd * C - qd * S
    want = [(q1 + q2 + rq) / 2, (p1 + p2 + rp) / 2, (q1 + q2 - rq) / 2, (p1 + p2 - rp) / 2]
    for n, a, b in zip(("q1", "p1", "q2", "p2"), out, want):
        k.equal("rotation of " + n, a, b, scale=1e2)
    if k.sym:
        # the rotation solves Hamilton's equations of omega/2 (|q1-q2|^2 + |p1-p2|^2)
        Q1, P1, Q2, P2 = out
        for i in range(4):
            k.equal("dq1/ddelta", k.diff(Q1[i], d), w * (P1[i] - P2[i]))
            k.equal("dp1/ddelta", k.diff(P1[i], d), -w * (Q1[i] - Q2[i]))
            k.equal("dq2/ddelta", k.diff(Q2[i], d), -w * (P1[i] - P2[i]))
            k.equal("dp2/ddelta", k.diff(P2[i], d), w * (Q1[i] - Q2[i]))
        symplectic(k, "mixed flow", (q1, p1, q2, p2), out)
    back = k.call(F, *(list(out) + [-d, w]))
    for n, a, b in zip(("q1", "p1", "q2", "p2"), back, (q1, p1, q2, p2)):
        k.equal("flow(-delta) undoes " + n, a, b, scale=1e2)
    z = k.call(F, q1, p1, q2, p2, d * 0, w)
    for n, a, b in zip(("q1", "p1", "q2", "p2"), z, (q1, p1, q2, p2)):
        k.equal("flow(0) keeps " + n, a, b, scale=1e2)
    e = k.call(F, q1, p1, q2, p2)
    f = k.call(F, q1, p1, q2, p2, 0.5, 1.0)
    for a, b in zip(e, f):
        k.equal("defaults", a, b)


# ------------------------------------------------------------------ G04
def integrator(k, g, prm, order=2, omega=None, delta=0.5, **kw):
    q0, p0 = kw.pop("q0", k.array([0, 1, 1, 0])), kw.pop("p0", k.array([-1, 0, 0, 0]))
    return k.call(k.get(GI), g, prm, q0, p0, order=order, delta=delta, omega=1.0 if omega is None else omega, **kw)


def as_state(x):
    return [x[i] for i in range(4)]


ST = ("q1", "p1", "q2", "p2")


@harness("G04", target=GI + "._ord_2", budget=120)
def order2_composition(k):
    g, prm, q1, p1, q2, p2, d = flow_inputs(k, zero=((0, 1), (0, 2), (1, 3)))
    w = k.real("omega")
    I = integrator(k, g, prm, 2, w)
    got = as_state(k.call(I._ord_2, q1, p1, q2, p2, d))

    def A(s, h):
        q, p = k.raw(k.get(IU + "_flow_A"), g, prm, s[0], s[1], s[2], s[3], h)
        return [s[0], p, q, s[3]]

    def B(s, h):
        q, p = k.raw(k.get(IU + "_flow_B"), g, prm, s[0], s[1], s[2], s[3], h)
        return [q, s[1], s[2], p]
    s = A([q1, p1, q2, p2], d / 2)
    s = B(s, d / 2)
    s = list(k.raw(k.get(IU + "_flow_mixed"), s[0], s[1], s[2], s[3], d, w))
    s = A(B(s, d / 2), d / 2)
    for n, a, b in zip(ST, got, s):
        k.equal("A(d/2) B(d/2) C(d) B(d/2) A(d/2): " + n, a, b, scale=1e2)


def invertible(k, name, inp, delta, fresh):
    """ghost: the flow `name` with parameter delta maps inp to opaque outputs; with -delta it maps them back"""
    log = k.ghost.setdefault(name, [])
    for i, d, o in log:
        if all(x is y for x, y in zip(o, inp)) and k.alg.zero(T.add(d, delta)):
            return i
        if all(x is y for x, y in zip(i, inp)) and k.alg.zero(T.add(d, T.neg(delta))):
            return o
    log.append((inp, delta, fresh))
    return fresh


def opaque(k, name, args, n):
    return [T.app("%s_%d" % (name, i), args) for i in range(n)]


def lifted(*vs):
    from engine import npshim
    return [T.lift_or_fail(npshim.exact(x)) for v in vs for x in v]


def metric_key(k, g):
    known = k.ghost.setdefault("metrics", [])
    for i, h in enumerate(known):
        if h is g:
            return i
    known.append(g)
    return len(known) - 1


def flow_contract(which):
    def spec(k, g, g_prms, q1, p1, q2, p2, delta=0.5):
        """moves two of the four vectors, the others only enter as parameters (G03: hamiltonian_flow)"""
        delta = lifted([delta])[0]
        name = "flow%s_m%d" % (which, metric_key(k, g))
        prm = lifted(g_prms)
        k.ghost.setdefault("metric calls", []).append((g, g_prms))
        fixed, moved = (lifted(q1, p2), lifted(q2, p1)) if which == "A" else (lifted(q2, p1), lifted(q1, p2))
        out = opaque(k, name, prm + fixed + moved + [delta], 8)
        out = invertible(k, name, prm + fixed + moved, delta, prm + fixed + out)[-8:]
        return k.array(out[:4]), k.array(out[4:])
    return spec


def mixed_contract(k, q1, p1, q2, p2, delta=0.5, omega=1.0):
    delta, omega = lifted([delta])[0], lifted([omega])[0]
    inp = lifted(q1, p1, q2, p2)
    out = opaque(k, "flowC", inp + [delta, omega], 16)
    out = invertible(k, "C", inp + [omega], delta, out + [omega])
    return k.array([out[4 * i:4 * i + 4] for i in range(4)])


contract("flow_A", IU + "_flow_A", flow_contract("A"), "hamiltonian_flow")
contract("flow_B", IU + "_flow_B", flow_contract("B"), "hamiltonian_flow")
contract("flow_mixed", IU + "_flow_mixed", mixed_contract, "mixed_flow")


@harness("G04", target=GI + "._ord_2", budget=60, contracts=["flow_A", "flow_B", "flow_mixed"])
def order2_reversible(k):
    """a step by delta followed by a step by -delta"""
    if k.sym:
        g, prm, q1, p1, q2, p2, d = flow_inputs(k)
    else:
        # a nearly flat metric and short steps: the round trip is well conditioned
        eps = [k.real("e%d" % i, sample=lambda rng, env: rng.uniform(-0.1, 0.1)) for i in range(10)]

        def g(q, *prm):
            r = np.zeros((4, 4), dtype=object)
            n = 0
            for i in range(4):
                for j in range(i, 4):
                    r[i, j] = r[j, i] = (1.0 if i == j else 0.0) + eps[n] * q[n % 4] * q[(n + 1 + n // 4) % 4]
                    n += 1
            return r
        prm = ()
        small = lambda nm: k.array([k.real("%s%d" % (nm, i), sample=lambda rng, env: rng.uniform(-1, 1)) for i in range(4)])
        q1, p1, q2, p2 = (small(n) for n in ST)
        d = k.real("d", sample=lambda rng, env: rng.uniform(-0.3, 0.3))
        if max(abs(float(x)) for v in (q1, p1, q2, p2) for x in v) > 2 or abs(float(d)) > 0.5 or max(abs(x) for x in eps) > 0.2:
            from engine.ctx import Reject
            raise Reject()
    w = k.real("omega", sample=lambda rng, env: rng.uniform(-3, 3))
    I = integrator(k, g, prm, 2, w)
    s = as_state(k.call(I._ord_2, q1, p1, q2, p2, d))
    back = as_state(k.call(I._ord_2, s[0], s[1], s[2], s[3], -d))
    for n, a, b in zip(ST, back, (q1, p1, q2, p2)):
        k.equal("step back restores " + n, a, b, tol=1e-5, scale=10)


def jumps(k, order):
    """the sub-steps of a triple-jump composition of the given order, as fractions of the step"""
    if order == 2:
        return [k.array([1])[0]]
    n = order - 1
    x = k.array([2])[0] ** (T.const("1/%d" % n) if k.sym else 1.0 / n)
    z0, z1 = -x / (2 - x), 1 / (2 - x)
    low = jumps(k, order - 2)
    return [z1 * w for w in low] + [z0 * w for w in low] + [z1 * w for w in low]


@harness("G04", variants=[{"order": o} for o in (2, 4, 6, 8)], target=",".join(GI + "._ord_%d" % n for n in (4, 6, 8)) + "," + IU + "_Z")
def triple_jump(k, order):
    """an order-n step performs the order-2 steps of the triple-jump composition, each on the result of the previous one"""
    d = k.real("d")
    I = integrator(k, lambda q, *prm: k.np.eye(4), (), order)
    calls = []
    s0 = [vec4(k, n) for n in ST]
    outs = []

    def stub(*a):
        q1, p1, q2, p2, h = a
        n = len(calls)
        calls.append(([q1, p1, q2, p2], h))
        r = k.array([[x + (n + 1) * 100 + i for x in s0[i]] for i in range(4)])
        outs.append(r)
        return r
    I._ord_2 = stub
    if order == 2:
        I.integrator = stub if getattr(I.integrator, "__name__", "") == "_ord_2" else I.integrator
    got = k.call(I.integrator, s0[0], s0[1], s0[2], s0[3], d)
    want = jumps(k, order)
    k.true("number of order-2 steps", len(calls) == len(want))
    prev = s0
    for n, ((state, h), w) in enumerate(zip(calls, want)):
        k.equal("length of sub-step %d" % n, h, w * d)
        for i in range(4):
            k.equal("sub-step %d starts from the previous state" % n, state[i], prev[i])
        prev = outs[n]
    for i in range(4):
        k.equal("result is the last state", got[i], prev[i])
    if k.sym:
        tot = sum(h for _, h in calls)
        k.equal("fractions add up to one", tot, d)
        if order > 2:
            n = 3 ** ((order - 2) // 2 - 1)
            blocks = [sum(h for _, h in calls[j * n:(j + 1) * n]) / 1 for j in range(3)]
            k.equal("leading error term of the lower order cancels", sum(b ** (order - 1) for b in blocks), 0 * d)
            k.equal("palindrome", blocks[0], blocks[2])


@harness("G04", variants=[{"order": o} for o in (4, 6, 8)], target=IU + "_Z")
def triple_jump_coefficients(k, order):
    Z0, Z1 = k.call(k.get(IU + "_Z"), order)
    k.equal("2 Z1 + Z0 = 1", 2 * Z1 + Z0, 1)
    k.equal("2 Z1^n + Z0^n = 0", 2 * Z1 ** (order - 1) + Z0 ** (order - 1), 0, scale=1e2)
    k.true("not the trivial solution", Z1 > 1)


@harness("G04", target=GI + ".__init__")
def unsupported_orders(k):
    g = lambda q, *prm: k.np.eye(4)
    for o in (0, 1, 3, 5, 7, 9, 10, -2, 2.5):
        k.raises("order %s" % o, "NotImplementedError", k.get(GI), g, (), k.array([0] * 4), k.array([0] * 4), order=o)
    for o in (2, 4, 6, 8):
        I = integrator(k, g, (), o)
        k.true("order %d accepted" % o, I.order == o)


# ------------------------------------------------------------------ G05
@harness("G05", variants=[{"order": 2, "cyclic": c} for c in ((0, 3), (0,), (3,), (0, 1, 2, 3))], target=GI + "._ord_2," + IU + "_flow_A," + IU + "_flow_B," + IU + "_flow_mixed", budget=120)
def cyclic_momenta(k, order, cyclic):
    g = Metric(k, cyclic=cyclic)
    prm = params(k)
    s = [vec4(k, n) for n in ST]
    d, w = k.real("d", sample=lambda rng, env: rng.uniform(-0.4, 0.4)), k.real("omega")
    I = integrator(k, g, prm, order, w)
    out = as_state(k.call(I._ord_2, s[0], s[1], s[2], s[3], d))
    for c in cyclic:
        k.equal("p1+p2 of coordinate %d" % c, out[1][c] + out[3][c], s[1][c] + s[3][c], scale=1e2)


@harness("G05", variants=[{"order": o, "which": w} for o in (4, 6, 8) for w in ("sum",)], target=",".join(GI + "._ord_%d" % n for n in (4, 6, 8)))
def cyclic_momenta_higher(k, order, which):
    """any composition of steps that keep p1+p2 keeps p1+p2 (order-2 steps by their contract)"""
    d = k.real("d")
    I = integrator(k, lambda q, *prm: k.np.eye(4), (), order)
    s = [vec4(k, n) for n in ST]
    n = [0]

    def contract(q1, p1, q2, p2, h):
        # an arbitrary state whose cyclic momenta have the sum of the input's
        n[0] += 1
        f = [k.fun("s%d_%d" % (n[0], i), 1) for i in range(13)]
        new = [[f[4 * b + i](h) for i in range(4)] for b in range(3)]
        p1n = k.array(new[1])
        p2n = k.array([p1[i] + p2[i] - new[1][i] for i in range(4)])
        return k.array([new[0], list(p1n), new[2], list(p2n)])
    I._ord_2 = contract
    got = as_state(k.call(I.integrator, s[0], s[1], s[2], s[3], d))
    for c in (0, 3):
        k.equal("p1+p2 of coordinate %d" % c, got[1][c] + got[3][c], s[1][c] + s[3][c], scale=1e2)


@harness("G05", variants=[{"order": o, "quiet": b} for o in (2, 4, 6, 8) for b in (True, False)], runs=4, target=GI + ".step")
def cyclic_momenta_step(k, order, quiet):
    """step() records the state its scheme returns: nothing it does around the scheme (tolerance check, bookkeeping) touches p1+p2"""
    g, prm = (Metric(k), params(k)) if k.sym else (Mild(k), (0.3, 0.2))
    s = [unit_vec(k, n) for n in ST]
    tol, at, rt = tolerances(k, True)
    I = k.call(k.get(GI), g, prm, s[0], s[1], order=order, suppress_warnings=quiet, **dict(options(k), **tol))
    n = [0]

    def scheme(q1, p1, q2, p2, h):
        n[0] += 1
        f = [k.fun("s%d_%d" % (n[0], i), 1) for i in range(12)]
        new = [[f[4 * b + i](h) for i in range(4)] for b in range(3)]
        return k.array([new[0], new[1], new[2], [p1[i] + p2[i] - new[1][i] for i in range(4)]])
    I.integrator = scheme
    I.res_list = s
    for m in range(2):
        k.call(I.step)
        k.true("one record per step", len(I.results) == m + 1)
        for c in (0, 3):
            k.equal("step %d: p1+p2 of coordinate %d in the record" % (m, c), I.results[m][1][c] + I.results[m][3][c], s[1][c] + s[3][c], scale=1e2)
            k.equal("step %d: p1+p2 of coordinate %d in the state" % (m, c), I.res_list[1][c] + I.res_list[3][c], s[1][c] + s[3][c], scale=1e2)


@harness("G05", mode="concrete", bounded="5 random states of the built-in metrics per order 2-8, one step", runs=5, target=GI + ".step",
         variants=[{"which": w, "order": o} for w in BUILTIN for o in (2, 4, 6, 8)])
def cyclic_momenta_run(k, which, order):
    f, prm, cov, con, dl, a, Q = builtin(k, which)
    q = k.array([0.0, k.rng.uniform(8, 20), k.rng.uniform(0.5, 2.5), k.rng.uniform(-3, 3)])
    p = k.array([-1.0, k.rng.uniform(-0.2, 0.2), k.rng.uniform(-1, 1), k.rng.uniform(-4, 4)])
    I = integrator(k, f, prm, order, 0.3, 0.2, q0=q, p0=p, suppress_warnings=True)
    k.call(I.step)
    for i, st in enumerate(I.results):
        st = np.array(st, dtype=float)
        if not np.isfinite(st).all():
            from engine.ctx import Reject
            raise Reject()
        for c in (0, 3):
            k.equal("step %d coordinate %d" % (i, c), st[1][c] + st[3][c], 2 * p[c], tol=1e-8, scale=1.0)


# ------------------------------------------------------------------ G06
FLOWS = ["flow_A", "flow_B", "flow_mixed"]


class Mild:
    """concrete stand-in for an arbitrary contravariant metric: near Minkowski, so that short runs stay finite"""
    __name__ = "user_metric"

    def __init__(self, k):
        self.e = [k.real("e%d" % i, sample=lambda rng, env: rng.uniform(-0.05, 0.05)) for i in range(10)]

    def __call__(self, q, *prm):
        r = np.zeros((4, 4), dtype=object)
        n = 0
        for i in range(4):
            for j in range(i, 4):
                r[i, j] = r[j, i] = (-1.0 if i == j == 0 else 1.0 if i == j else 0.0) + self.e[n] * q[n % 4] * (q[(n + 1 + n // 4) % 4] + sum(prm))
                n += 1
        return r if any(hasattr(x, "deriv") for x in r.flat) else r.astype(float)


def unit_vec(k, name, n=4):
    return k.array([k.real("%s%d" % (name, i), sample=lambda rng, env: rng.uniform(-1, 1)) for i in range(n)])


def any_metric(k):
    return (Metric(k), params(k)) if k.sym else (Mild(k), tuple(k.real("prm%d" % i, sample=lambda rng, env: rng.uniform(-1, 1)) for i in range(2)))


def step_size(k):
    return k.real("d", sample=lambda rng, env: rng.uniform(-0.2, 0.2))


def options(k):
    return dict(delta=step_size(k), omega=k.real("omega", sample=lambda rng, env: rng.uniform(-2, 2)))


def order_method(I, order):
    return getattr(I, "_ord_%d" % order)


@harness("G06", variants=[{"order": o} for o in (2, 4, 6, 8)], target=GI + ".step," + GI + ".__init__", contracts=FLOWS, runs=5)
def integrator_steps(k, order):
    """every step() starts from the previous state, and is recorded once, in order"""
    g, prm = any_metric(k)
    q, p = unit_vec(k, "q"), unit_vec(k, "p")
    o = options(k)
    I = k.call(k.get(GI), g, prm, q, p, order=order, suppress_warnings=True, **o)
    J = k.call(k.get(GI), g, prm, q, p, order=order, suppress_warnings=True, **o)
    k.true("starts empty", len(I.results) == 0)
    state = [q, p, q, p]
    want = []
    for n in range(3):
        k.call(I.step)
        state = k.call(order_method(J, order), state[0], state[1], state[2], state[3], o["delta"])
        want.append(state)
        k.true("one record per step", len(I.results) == n + 1)
    for n in range(3):
        for i in range(4):
            k.equal("record %d is the state after step %d: %s" % (n, n + 1, ST[i]), I.results[n][i], want[n][i])


def tolerances(k, given):
    if not given:
        return {}, k.array([T.const("1/100") if k.sym else 0.01])[0], k.array([T.const("1/100") if k.sym else 0.01])[0]
    at = k.pos("atol", sample=lambda rng, env: 10 ** rng.uniform(-3, 0))
    rt = k.pos("rtol", sample=lambda rng, env: 10 ** rng.uniform(-3, 0))
    return dict(atol=at, rtol=rt), at, rt


def norm_of(g, prm, q, p):
    m = g(q, *prm)
    return sum(m[i, j] * p[i] * p[j] for i in range(4) for j in range(4))


def check_warning(k, label, warned, dev, bound):
    keep(k, abs(dev) - bound, bound, 1e-3)
    if warned:
        k.true(label + ": a warning is issued only beyond the tolerance", k.either(dev > bound, -dev > bound))
    else:
        k.true(label + ": no warning only within the tolerance", dev <= bound)
        k.true(label + ": no warning only within the tolerance", -dev <= bound)


@harness("G06", variants=[{"tl": t, "given": v} for t in (True, False) for v in (True, False)], target=GI + ".step", contracts=FLOWS)
def step_warning(k, tl, given):
    g, prm = any_metric(k)
    q, p = unit_vec(k, "q"), unit_vec(k, "p")
    tol, at, rt = tolerances(k, given)
    o = options(k)
    kw = dict(o, **tol)
    if not tl or given:
        kw["time_like"] = tl
    I = k.call(k.get(GI), g, prm, q, p, **kw)
    k.call(I.step)
    warned = "RuntimeWarning" in k.warned
    r = I.results[0]
    const = -1 if tl else 0
    check_warning(k, "step", warned, norm_of(g, prm, r[0], r[1]) - const, at + rt * abs(const))
    S = k.call(k.get(GI), g, prm, q, p, suppress_warnings=True, **kw)
    k.call(S.step)
    k.true("suppressed", "RuntimeWarning" not in k.warned)
    for i in range(4):
        k.equal("the check does not change the state", S.results[0][i], r[i])


def geodesic_inputs(k, g, prm, tl):
    pos = [k.pos("x1", sample=lambda rng, env: rng.uniform(0.5, 1.5)), k.polar("x2"), k.real("x3", sample=lambda rng, env: rng.uniform(-1, 1))]
    mom = [k.real("p%d" % i, sample=lambda rng, env: rng.uniform(-0.5, 0.5)) for i in (1, 2, 3)]
    q = k.array([0] + pos)
    lorentzian(k, g, q, prm, mom, tl)
    return pos, mom, q


def expected_rows(k, g, prm, q, p, tl, steps, **kw):
    J = k.call(k.get(GI), metric=g, metric_params=prm, q0=q, p0=p, time_like=tl, steps=steps, suppress_warnings=True, **kw)
    for _ in range(steps):
        k.call(J.step)
    return J.results


@harness("G06", variants=[dict(tl=t, n=n, cart=c, how=h) for t, n, c, h in ((True, 1, False, "class"), (False, 3, True, "class"), (True, 3, None, "class"), (False, 2, False, "flag"), (True, 2, True, "flag"), (True, None, False, "default"))],
         target=",".join(GEO + x for x in ("Geodesic.calculate_trajectory", "Geodesic.__init__", "Geodesic.trajectory", "Timelike.__init__", "Nulllike.__init__")), contracts=FLOWS, runs=10, budget=120)
def trajectory(k, tl, n, cart, how):
    g, prm = any_metric(k)
    pos, mom, q = geodesic_inputs(k, g, prm, tl)
    o = {} if how == "default" else dict(options(k), order=4)
    opt = {} if n is None else {"steps": n}
    if cart is not None:
        opt["return_cartesian"] = cart
    opt["suppress_warnings"] = True
    opt.update(o)
    if how == "class":
        cls = k.get(GEO + ("Timelike" if tl else "Nulllike"))
    else:
        cls = k.get(GEO + "Geodesic")
        if not tl:
            opt["time_like"] = False
    geod = k.call(cls, metric=g, metric_params=prm, position=pos, momentum=mom, **opt)
    P = k.call(k.get(GU + "_P"), g, prm, q, mom, tl)
    k.true("kind", geod.time_like == tl and geod.kind == ("Time-like" if tl else "Null-like"))
    k.equal("initial position", geod.position, q)
    k.equal("initial momentum", geod.momentum, P)
    idx, rows = geod.trajectory
    N = 50 if n is None else n
    want = expected_rows(k, g, prm, q, P, tl, N, **(o or dict(delta=0.5, order=2, omega=1.0)))
    k.true("step indices", [int(i) for i in idx] == list(range(N)))
    k.true("one row per step, eight columns", np.shape(rows) == (N, 8))
    for i in sorted(set([0, 1, N // 2, N - 2, N - 1]) & set(range(N))):
        x, p = want[i][0], want[i][1]
        if cart is False:
            k.equal("row %d: position" % i, rows[i][:4], x)
        else:
            k.equal("row %d: Cartesian position" % i, rows[i][:4],
                    k.array([x[0], x[1] * k.sin(x[2]) * k.cos(x[3]), x[1] * k.sin(x[2]) * k.sin(x[3]), x[1] * k.cos(x[2])]))
        k.equal("row %d: momentum" % i, rows[i][4:], p)


def abstract_scheme(k, cls, o, g, prm):
    """the integration schemes as uninterpreted functions of the state and the step size (that they are: integrator_steps)"""
    def make(n):
        def scheme(self, q1, p1, q2, p2, h):
            k.true("the metric asked for", self.metric is g and len(self.metric_params) == len(prm) and all(a is b for a, b in zip(self.metric_params, prm)))
            k.equal("the coupling asked for", self.omega, o["omega"])
            args = [T.lift_or_fail(x) for v in (q1, p1, q2, p2) for x in v] + [T.lift_or_fail(h)]
            if len(args) != 17:
                raise T.Unsupported("state of another shape")
            return k.array([[T.app("scheme%d_%d%d" % (n, i, c), args) for c in range(4)] for i in range(4)])
        return scheme
    for n in (2, 4, 6, 8):
        if not hasattr(cls, "_ord_%d" % n):
            raise T.Unsupported("no scheme of order %d" % n)
        setattr(cls, "_ord_%d" % n, make(n))


@harness("G06", generic=True, budget=120, runs=6,
         variants=[dict(tl=True, cart=False, order=4, quiet=True), dict(tl=False, cart=True, order=None, quiet=True), dict(tl=True, cart=None, order=2, quiet=False), dict(tl=False, cart=False, order=6, quiet=False)],
         target=",".join(GEO + x for x in ("Geodesic.calculate_trajectory", "Geodesic.__init__", "Geodesic.trajectory", "Timelike.__init__", "Nulllike.__init__")) + "," + GI + ".step")
def trajectory_any_length(k, tl, cart, order, quiet):
    """any number of steps: row j is the first copy of the j+1-st iterate of the scheme (by induction over the loop)"""
    g, prm = any_metric(k)
    pos, mom, q = geodesic_inputs(k, g, prm, tl)
    o = options(k)
    most = {4: 50, 6: 20, 8: 6}.get(order, 120)         # concrete runs only
    N = k.pos("N", sample=lambda rng, env: rng.choice([1, 2, most, rng.randint(1, most)]))
    k.assume(N >= 1)
    if not k.sym:
        N = int(N)
        if N > most:
            raise Reject()
    opt = dict(o, steps=N, **({} if order is None else {"order": order}), **({} if cart is None else {"return_cartesian": cart}), **({"suppress_warnings": True} if quiet else {}))
    n = order or 2
    inner = cart is not False
    if k.sym:
        abstract_scheme(k, k.get(GI), o, g, prm)
    geod = k.call(k.get(GEO + ("Timelike" if tl else "Nulllike")), metric=g, metric_params=prm, position=pos, momentum=mom, **opt)
    P = k.call(k.get(GU + "_P"), g, prm, q, mom, tl)
    idx, rows = geod.trajectory
    if not k.sym:
        J = k.call(k.get(GI), metric=g, metric_params=prm, q0=q, p0=P, order=n, **o)
        want, state = [], [q, P, q, P]
        for _ in range(N):
            state = k.call(order_method(J, n), state[0], state[1], state[2], state[3], o["delta"])
            want.append(state)
        k.true("step indices", [int(i) for i in idx] == list(range(N)))
        k.true("one row per step, eight columns", np.shape(rows) == (N, 8))
        for i in range(N):
            x, p = want[i][0], want[i][1]
            if not np.isfinite(np.array(want[i], dtype=float)).all() or np.abs(np.array(want[i], dtype=float)).max() > 1e6:
                break
            k.equal("row %d: position" % i, rows[i][:4], k.array([x[0], x[1] * k.sin(x[2]) * k.cos(x[3]), x[1] * k.sin(x[2]) * k.sin(x[3]), x[1] * k.cos(x[2])]) if inner else x)
            k.equal("row %d: momentum" % i, rows[i][4:], p)
        return
    j = k.real("j", "nonneg")
    k.assume(j <= N - 1)
    last = bool(T.mkbool("==", j - N + 1))
    k.equal("number of step indices", idx.n if isinstance(idx, Seq) else len(idx), N)
    k.equal("step index", idx[j], j)
    if not isinstance(rows, Seq):
        raise T.Unsupported("rows of another kind")
    k.true("one row per step, eight columns", len(rows.shape) == 2 and int(rows.shape[1]) == 8)
    k.equal("number of rows", rows.n, N)

    def row(t):
        """the state behind row t: the arguments the scheme was last called with"""
        r = rows.at(t)
        p = r[5]
        if not (isinstance(p, T.Sym) and p.op == "app" and p.args[0] == "scheme%d_11" % n):
            k.true("row: a step of the scheme asked for", False)
            return r, None
        return r, list(p.args[2:])

    def step(args):
        return [[T.app("scheme%d_%d%d" % (n, i, c), args) for c in range(4)] for i in range(4)]

    def check(label, t, r, args):
        s = step(args)
        x, p = s[0], s[1]
        k.equal(label + ": position", r[:4], k.array(x if not inner else [x[0], x[1] * k.sin(x[2]) * k.cos(x[3]), x[1] * k.sin(x[2]) * k.sin(x[3]), x[1] * k.cos(x[2])]))
        k.equal(label + ": momentum", r[4:], k.array(p))
    r, args = row(j)
    if args is None:
        return
    check("row j", j, r, args)
    k.equal("step size", args[16], o["delta"])
    loop = k.loops[-1]
    r0, a0 = row(T.ZERO)
    check("row 0", T.ZERO, r0, a0)
    for m, v in enumerate([q, P, q, P]):
        k.equal("the first step starts from the initial state: %s" % ST[m], k.array(a0[4 * m:4 * m + 4]), v)
    if not last:
        r1, a1 = row(j + 1)
        want = [x for v in step(args) for x in v]
        for m in range(16):
            k.equal("the next step starts from the state of this one: %s%d" % (ST[m // 4], m % 4), loop.unfold(a1[m], j), want[m])


@harness("G06", variants=[dict(tl=t, given=v) for t in (True, False) for v in (True, False)], target=GEO + "Geodesic.calculate_trajectory", contracts=FLOWS)
def trajectory_warning(k, tl, given):
    g, prm = any_metric(k)
    pos, mom, q = geodesic_inputs(k, g, prm, tl)
    tol, at, rt = tolerances(k, given)
    o = options(k)
    geod = k.call(k.get(GEO + ("Timelike" if tl else "Nulllike")), metric=g, metric_params=prm, position=pos, momentum=mom, return_cartesian=False, steps=1, **dict(o, **tol))
    warned = "RuntimeWarning" in k.warned
    r = geod.trajectory[1][0]
    const = -1 if tl else 0
    check_warning(k, "trajectory", warned, norm_of(g, prm, r[:4], r[4:]) - const, at + rt * abs(const))


@harness("G06", variants=[{"which": w} for w in BUILTIN], target=GEO + "Geodesic.__init__", runs=10, contracts=FLOWS)
def trajectory_builtin(k, which):
    """metrics requested by name"""
    f, prm, cov, con, dl, a, Q = builtin(k, which)
    pos = [k.pos("r", sample=lambda rng, env: rng.uniform(6, 12)), k.polar("th"), k.azimuth("ph")]
    mom = [k.real("p%d" % i, sample=lambda rng, env: rng.uniform(-0.5, 0.5)) for i in (1, 2, 3)]
    q = k.array([0] + pos)
    k.assume(pos[0] > 2)
    k.assume(dl(q) > 0)
    lorentzian(k, lambda x, *prm: con(x), q, prm, mom, True)
    d = step_size(k)
    if not k.sym and (abs(float(d)) > 0.3 or float(pos[0]) < 5 or abs(float(pos[1]) - 1.5) > 1 or max(abs(float(x)) for x in mom) > 1):
        from engine.ctx import Reject
        raise Reject()
    geod = k.call(k.get(GEO + "Timelike"), metric=which, metric_params=prm, position=pos, momentum=mom, steps=1, delta=d, return_cartesian=False, suppress_warnings=True)
    if k.sym:
        # the integrator was handed a function and parameters that denote the textbook metric
        x = k.array([k.real("t_"), k.pos("r_"), k.polar("th_"), k.azimuth("ph_")])
        k.assume(dl(x) > 0)
        k.assume(x[1] > 2)
        for g, gp in k.ghost.get("metric calls", [])[:1] + k.ghost.get("metric calls", [])[-1:]:
            k.equal("metric handed to the integrator", k.call(g, x, *gp), con(x))
        return
    P = k.call(k.get(GU + "_P"), f, prm, q, mom, True)
    want = expected_rows(k, f, prm, q, P, True, 1, delta=d)
    k.equal("position", geod.trajectory[1][0][:4], want[0][0])
    k.equal("momentum", geod.trajectory[1][0][4:], want[0][1])


@harness("G06", target=GEO + "Geodesic.__init__")
def unknown_metric(k):
    for m in ("kerr", "Minkowski", "", 3):
        k.raises("metric %r" % (m,), "NotImplementedError", k.get(GEO + "Timelike"), metric=m, metric_params=(0.1,), position=[4.0, 1.0, 0.0], momentum=[0.0, 0.0, 3.0], steps=1)
