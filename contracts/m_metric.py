from engine.registry import contract, harness
from .common import *

B = "einsteinpy.metric.base_metric:BaseMetric."
THREE = [{"which": w} for w in ("Schwarzschild", "Kerr", "KerrNewman")]
CLS = {"Schwarzschild": "einsteinpy.metric.schwarzschild:Schwarzschild", "Kerr": "einsteinpy.metric.kerr:Kerr",
       "KerrNewman": "einsteinpy.metric.kerrnewman:KerrNewman"}


# ------------------------------------------------------------------ callee contracts of the helpers
def sp_alpha(k, M, a):
    M, a = si(M), si(a)
    if a < 0 or a > 1:
        raise ValueError("Spin Parameter, a, should be between 0 and 1.")
    return a * gm(k, M)


def sp_sigma(k, r, theta, M, a):
    r, th = si(r), si(theta)
    return r ** 2 + sp_alpha(k, M, a) ** 2 * k.cos(th) ** 2


def sp_delta(k, r, M, a, Q=0):
    r = si(r)
    return r ** 2 - 2 * gm(k, si(M)) * r + sp_alpha(k, M, a) ** 2 + rq2(k, si(Q))


def sp_rho(k, r, theta, M, a):
    return k.sqrt(sp_sigma(k, r, theta, M, a))


def sp_rs(k, M):
    return 2 * gm(k, si(M))


def _maybe_q(k, v, unit, q):
    return k.q(v, unit) if q else v


def _helper(k, name, quantities):
    f = k.get(B + name)
    M = mass(k)
    if name == "schwarzschild_radius":
        k.equal("r_s = 2GM/c^2", k.call(f, _maybe_q(k, M, "kg", quantities)), sp_rs(k, M))
        return
    a = spin(k)
    Mq, aq = _maybe_q(k, M, "kg", quantities), _maybe_q(k, a, "", quantities)
    if name == "alpha":
        k.equal("alpha = a GM/c^2", k.call(f, Mq, aq), sp_alpha(k, M, a))
        return
    r = k.real("r")
    rq_ = _maybe_q(k, r, "m", quantities)
    if name == "delta":
        Q = charge(k)
        k.equal("Delta without charge", k.call(f, rq_, Mq, aq), sp_delta(k, r, M, a))
        k.equal("Delta", k.call(f, rq_, Mq, aq, _maybe_q(k, Q, "C", quantities)), sp_delta(k, r, M, a, Q))
        return
    th = k.real("th")
    thq = _maybe_q(k, th, "rad", quantities)
    if name == "sigma":
        k.equal("Sigma", k.call(f, rq_, thq, Mq, aq), sp_sigma(k, r, th, M, a))
    else:
        k.equal("rho", k.call(f, rq_, thq, Mq, aq), sp_rho(k, r, th, M, a))


for _n, _s in (("alpha", sp_alpha), ("sigma", sp_sigma), ("delta", sp_delta), ("rho", sp_rho), ("schwarzschild_radius", sp_rs)):
    def _mk(n):
        def h(k, quantities):
            _helper(k, n, quantities)
        return h
    harness("M01", variants=[{"quantities": False}, {"quantities": True}], target=B + _n, name="helper_" + _n,
            contracts=["alpha"] if _n in ("sigma", "delta") else ["sigma"] if _n == "rho" else [])(_mk(_n))
    contract(_n, B + _n, _s, "helper_" + _n)
HELP = ["alpha", "sigma", "delta", "rho", "schwarzschild_radius"]


@harness("M01", variants=THREE, contracts=HELP, target=",".join(c + ".metric_covariant" for c in CLS.values()))
def metric_textbook(k, which):
    s = setup(k, which)
    g = k.call(s["m"].metric_covariant, s["x"])
    k.equal("metric_covariant is the textbook metric", g, s["g"])
    k.equal("metric_cov callable", k.call(s["m"].metric_cov, s["x"]), s["g"])
    k.equal("sch_rad", s["m"].sch_rad, 2 * gm(k, s["M"]))


# contracts for callers of the metric: the textbook metric and its inverse (verified by metric_textbook / metric_inverse)
@harness("M05", variants=THREE, contracts=HELP, target="einsteinpy.metric.base_metric:BaseMetric.metric_contravariant")
def metric_inverse(k, which):
    s = setup(k, which)
    g = k.call(s["m"].metric_covariant, s["x"])
    gi = k.call(s["m"].metric_contravariant, s["x"])
    P = k.np.zeros((4, 4))
    for i in range(4):
        for j in range(4):
            P[i, j] = sum(gi[i, n] * g[n, j] for n in range(4))
    if k.sym:
        k.equal("contravariant times covariant is the identity", P, k.np.eye(4))
        k.equal("contravariant metric is the closed-form inverse", gi, k.np.asarray(s["gi"]))
    else:
        D = [1 / abs(float(g[i, i])) ** 0.5 for i in range(4)]
        Q = k.np.array([[P[i, j] * D[j] / D[i] for j in range(4)] for i in range(4)])
        k.equal("contravariant times covariant is the identity", Q, k.np.eye(4))


@harness("M05", variants=[{"perturbed": False}, {"perturbed": True}], target="einsteinpy.metric.base_metric:BaseMetric.metric_covariant")
def base_metric_generic(k, perturbed):
    """every user-supplied metric: components are arbitrary functions of the position"""
    x = k.array([k.real("x%d" % i) for i in range(4)])
    G = {}
    H = {}
    for i in range(4):
        for j in range(i, 4):
            G[i, j] = G[j, i] = k.fun("g%d%d" % (i, j), 4)
            H[i, j] = H[j, i] = k.fun("h%d%d" % (i, j), 4)

    def cov(y):
        r = k.np.zeros((4, 4))
        for i in range(4):
            for j in range(4):
                r[i, j] = G[i, j](*y)
        return r

    def per(y):
        r = k.np.zeros((4, 4))
        for i in range(4):
            for j in range(4):
                r[i, j] = H[i, j](*y)
        return r
    M = mass(k)
    m = k.call(k.get("einsteinpy.metric:BaseMetric"), coords(k, "Spherical"), k.q(M, "kg"), metric_cov=cov, perturbation=per if perturbed else None)
    want = cov(x) + per(x) if perturbed else cov(x)
    k.equal("covariant metric is metric_cov plus perturbation", k.call(m.metric_covariant, x), want)
    k.equal("metric_cov stays the user's metric", k.call(m.metric_cov, x), cov(x))
    det = k.np.linalg.det(want)
    k.assume(det != 0)
    keep(k, det, float(abs(want).max()) ** 4 if not k.sym else 1, 0.005)
    gi = k.call(m.metric_contravariant, x)
    P = k.np.zeros((4, 4))
    for i in range(4):
        for j in range(4):
            P[i, j] = sum(gi[i, n] * want[n, j] for n in range(4))
    k.equal("contravariant metric is the inverse", P, k.np.eye(4))


@harness("M02", variants=THREE, contracts=HELP, budget=120, target=",".join(c + "._christoffels" for c in CLS.values()))
def christoffels(k, which):
    s = setup(k, which)
    m, x = s["m"], s["x"]
    got = k.call(m.christoffels, x)
    want = lc_of(k, s)
    if k.sym:
        k.equal("Christoffel symbols are Levi-Civita", got, want)
    else:
        S = [1 / abs(float(s["g"][i, i])) ** 0.5 for i in range(4)]
        sc = k.np.array([[[S[b] * S[c] / S[a] for c in range(4)] for b in range(4)] for a in range(4)])
        k.equal("Christoffel symbols are Levi-Civita", got * sc, want * sc, tol=1e-4, scale=1e3 * float(abs(want * sc).max()))
    k.equal("symmetric in the lower indices", got, k.np.asarray([[[got[i, b, a] for b in range(4)] for a in range(4)] for i in range(4)]))


def lc_of(k, s):
    """Levi-Civita connection of the metric the object itself reports"""
    m, x = s["m"], s["x"]
    dg = jacobian(k, lambda y: k.raw(m.metric_covariant, y), x, range(4), h=[1e-2, 1e-3 * float(s["r"]) if not k.sym else 0, 1e-3, 1e-2])
    if k.sym:
        gi = k.np.linalg.inv(k.raw(m.metric_covariant, x))
    else:
        gi = np.linalg.inv(m.metric_covariant(x))
    return levi_civita(k, gi, dg)


@harness("M02", target="einsteinpy.metric.kerr:Kerr.nonzero_christoffels")
def nonzero_list(k):
    s = setup(k, "Kerr")
    lst = k.call(s["m"].nonzero_christoffels)
    have = set((int(a), int(b), int(c)) for a, b, c in lst)
    k.true("list of index triples", all(0 <= v < 4 for t in have for v in t))
    if not k.sym:
        return
    want = lc_of(k, dict(s, m=type("Spec", (), {"metric_covariant": staticmethod(s["g_of"])})))
    for i in range(4):
        for j in range(4):
            for l in range(4):
                if (i, j, l) not in have:
                    k.equal("Gamma[%d,%d,%d] vanishes identically because it is not listed" % (i, j, l), want[i, j, l], 0)


@harness("M03", variants=THREE, contracts=HELP, budget=150, target=",".join(c + "._f_vec" for c in CLS.values()))
def f_vec(k, which):
    s = setup(k, which, with_q=(which == "KerrNewman"))
    m, x = s["m"], s["x"]
    lam = k.real("lam")
    if which == "Schwarzschild" or k.sym:
        u = [k.real("u%d" % i) for i in range(4)]
    else:
        u = [k.real("u%d" % i) for i in range(4)]
    c = k.c if k.sym else 1.0
    vec = k.array(list(x) + u)
    if not k.sym:
        vec[4] = u[0] = u[0] / k.c     # dt/dtau of order 1/c keeps the terms comparable
    got = k.call(m.f_vec, lam, vec)
    G = lc_of(k, s)
    want = k.np.zeros(8)
    for i in range(4):
        want[i] = u[i]
    force = k.np.zeros(4)
    if which == "KerrNewman":
        # F is the field the metric itself reports (C. M04)
        F = k.raw(m.em_tensor_covariant, x)
        gi, g = s["gi"], s["g"]
        # F^{mn} g_ns u^s = g^{mp} F_{ps} u^s
        for i in range(4):
            force[i] = s["q"] * sum(gi[i, p] * F[p, w] * u[w] for p in range(4) for w in range(4))
    for i in range(4):
        want[4 + i] = -sum(G[i, a, b] * u[a] * u[b] for a in range(4) for b in range(4)) - force[i]
    k.equal("f_vec position part is the velocity", got[:4], want[:4])
    if k.sym:
        k.equal("f_vec is the geodesic equation", got[4:], want[4:])
    else:
        sc = k.np.array([k.c, 1, 1, 1])
        k.equal("f_vec is the geodesic equation", got[4:] * sc, want[4:] * sc, tol=1e-4, scale=1e3 * float(abs(want[4:] * sc).max()))
    return


@harness("M04", contracts=HELP, target=CLS["KerrNewman"] + ".em_tensor_covariant," + CLS["KerrNewman"] + ".em_potential_covariant," + CLS["KerrNewman"] + ".em_tensor_contravariant," + CLS["KerrNewman"] + ".em_potential_contravariant")
def em_field(k):
    s = setup(k, "KerrNewman")
    m, x = s["m"], s["x"]
    A = k.call(m.em_potential_covariant, x)
    k.equal("potential", A, A_kn(k, x, s["M"], s["a"], s["Q"]))
    F = k.call(m.em_tensor_covariant, x)
    want = F_kn(k, x, s["M"], s["a"], s["Q"])
    if k.sym:
        dA = jacobian(k, lambda y: A, x, range(4))
        wd = k.np.zeros((4, 4))
        for i in range(4):
            for j in range(4):
                wd[i, j] = dA[i][j] - dA[j][i]
        k.equal("lemma: closed form of dA", want, wd)
    k.equal("electric part of F = dA", F[0], want[0])
    k.equal("F[r,theta] = 0", F[1, 2], 0, scale=1)
    # the magnetic part up to its overall sign (the sign itself: em_magnetic_sign)
    k.equal("magnitude of F[r,phi]", F[1, 3] ** 2, want[1, 3] ** 2)
    k.equal("magnitude of F[theta,phi]", F[2, 3] ** 2, want[2, 3] ** 2)
    k.equal("relative sign of the magnetic components", F[1, 3] * want[2, 3], F[2, 3] * want[1, 3])
    k.equal("F is antisymmetric", F, -F.T)
    gi = s["gi"]
    got = k.call(m.metric_contravariant, x)
    Au = k.call(m.em_potential_contravariant, x)
    Fu = k.call(m.em_tensor_contravariant, x)
    wA, wF = k.np.zeros(4), k.np.zeros((4, 4))
    for i in range(4):
        wA[i] = sum(got[i, n] * A[n] for n in range(4))
        for j in range(4):
            wF[i, j] = sum(got[i, n] * F[n, p] * got[p, j] for n in range(4) for p in range(4))
    if not k.sym:
        sc = k.np.array([k.c, 1, 1, 1])
        Au, wA = Au * sc, wA * sc
        Fu, wF = Fu * sc[:, None] * sc[None, :], wF * sc[:, None] * sc[None, :]
    k.equal("contravariant potential", Au, wA)
    k.equal("contravariant tensor", Fu, wF)


@harness("M04", variants=[{"component": "r"}, {"component": "theta"}], contracts=HELP, target=CLS["KerrNewman"] + ".em_tensor_covariant")
def em_magnetic_sign(k, component):
    s = setup(k, "KerrNewman")
    F = k.call(s["m"].em_tensor_covariant, s["x"])
    want = F_kn(k, s["x"], s["M"], s["a"], s["Q"])
    if component == "r":
        k.equal("F[r,phi] = d_r A_phi", F[1, 3], want[1, 3])
    else:
        k.equal("F[theta,phi] = d_theta A_phi", F[2, 3], want[2, 3])


@harness("M06", variants=[{"which": w} for w in ("Kerr", "KerrNewman")], contracts=HELP, target=B + "singularities")
def singularities(k, which):
    M = mass(k)
    a = spin(k)
    Q = charge(k) if which == "KerrNewman" else None
    th = k.real("th")
    al = a * gm(k, M)
    q2 = rq2(k, Q) if Q is not None else 0
    rs = 2 * gm(k, M)
    disc = rs ** 2 - 4 * al ** 2 - 4 * q2
    k.assume(disc > 0)
    keep(k, disc, rs ** 2, 1e-6)
    m = metric(k, which, M, a, Q)
    d = k.call(m.singularities)
    k.true("four entries", sorted(d) == ["inner_ergosphere", "inner_horizon", "outer_ergosphere", "outer_horizon"])
    ih, oh = d["inner_horizon"], d["outer_horizon"]
    ie, oe = k.call(d["inner_ergosphere"], th), k.call(d["outer_ergosphere"], th)
    for n, r, c2 in (("inner horizon", ih, 1), ("outer horizon", oh, 1), ("inner ergosphere", ie, k.cos(th) ** 2), ("outer ergosphere", oe, k.cos(th) ** 2)):
        k.equal("%s is a root of its equation" % n, r ** 2 - rs * r + al ** 2 * c2 + q2, 0, scale=1e3 * rs ** 2 if not k.sym else None)
    if k.sym:
        k.true("inner ergosphere <= inner horizon", ie <= ih)
        k.true("inner horizon <= outer horizon", ih <= oh)
        k.true("outer horizon <= outer ergosphere", oh <= oe)
    else:
        e = 1e-9 * rs
        k.true("order of the surfaces", ie <= ih + e and ih <= oh + e and oh <= oe + e)
        k.true("horizons are distinct", oh > ih)


@harness("M06", target=B + "singularities")
def singularities_schwarzschild(k):
    M = mass(k)
    m = metric(k, "Schwarzschild", M)
    d = k.call(m.singularities)
    k.equal("inner ergosphere", d["inner_ergosphere"], 0)
    k.equal("inner horizon", d["inner_horizon"], 0)
    k.equal("outer horizon", d["outer_horizon"], 2 * gm(k, M))
    k.equal("outer ergosphere", d["outer_ergosphere"], 2 * gm(k, M))


WRONG = [{"which": w, "system": s} for w in ("Schwarzschild", "Kerr", "KerrNewman") for s in COORD
         if s != ("Spherical" if w == "Schwarzschild" else "BoyerLindquist")]


@harness("M07", variants=WRONG, target=",".join(CLS.values()))
def wrong_coordinates(k, which, system):
    M = mass(k)
    a = spin(k) if which != "Schwarzschild" else None
    Q = charge(k) if which == "KerrNewman" else None
    x = k.array([k.real("t"), radius(k), k.polar("th"), k.azimuth("ph")])
    vec = k.array(list(x) + [k.real("u%d" % i) for i in range(4)])
    m = metric(k, which, M, a, Q, system=system)
    for n, f, args in (("metric_covariant", m.metric_covariant, (x,)), ("metric_cov", m.metric_cov, (x,)), ("metric_contravariant", m.metric_contravariant, (x,)),
                       ("christoffels", m.christoffels, (x,)), ("f_vec", m.f_vec, (k.real("lam"), vec)), ("singularities", m.singularities, ())):
        k.raises("%s raises CoordinateError" % n, "CoordinateError", f, *args)


@harness("M07", variants=[{"which": w, "side": s} for w in ("Kerr", "KerrNewman") for s in ("below", "above")], target=",".join(CLS.values()))
def spin_rejected(k, which, side):
    M = mass(k)
    a = k.real("a", sample=lambda rng, env: rng.uniform(1.0001, 3) if side == "above" else -rng.uniform(1e-4, 3))
    k.assume(a > 1 if side == "above" else a < 0)
    Q = charge(k) if which == "KerrNewman" else None
    r, th = radius(k), k.polar("th")
    x = k.array([k.real("t"), r, th, k.azimuth("ph")])
    vec = k.array(list(x) + [k.real("u%d" % i) for i in range(4)])
    base = k.get("einsteinpy.metric:BaseMetric")
    k.raises("alpha", "ValueError", base.alpha, M, a)
    k.raises("alpha of quantities", "ValueError", base.alpha, k.q(M, "kg"), k.q(a, ""))
    k.raises("sigma", "ValueError", base.sigma, r, th, M, a)
    k.raises("delta", "ValueError", base.delta, r, M, a)
    k.raises("rho", "ValueError", base.rho, r, th, M, a)
    try:
        m = k.raw(k.get("einsteinpy.metric:" + which), *([coords(k, "BoyerLindquist"), k.q(M, "kg"), k.q(a, "")] + ([k.q(Q, "C")] if Q is not None else [])))
    except ValueError:
        return      # rejecting at construction is stricter
    for n, f, args in (("metric_covariant", m.metric_covariant, (x,)), ("metric_contravariant", m.metric_contravariant, (x,)),
                       ("christoffels", m.christoffels, (x,)), ("f_vec", m.f_vec, (k.real("lam"), vec)), ("singularities", m.singularities, ())):
        k.raises("%s raises ValueError" % n, "ValueError", f, *args)
    if which == "KerrNewman":
        for n in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant"):
            k.raises("%s raises ValueError" % n, "ValueError", getattr(m, n), x)


@harness("M07", variants=THREE, target=",".join(CLS.values()))
def right_coordinates_accepted(k, which):
    """no spurious rejection: every operation returns for admissible arguments"""
    s = setup(k, which)
    m, x = s["m"], s["x"]
    vec = k.array(list(x) + [k.real("u%d" % i) for i in range(4)])
    for f, args in ((m.metric_covariant, (x,)), (m.metric_contravariant, (x,)), (m.christoffels, (x,)), (m.f_vec, (k.real("lam"), vec))):
        k.call(f, *args)
    k.true("operations return", True)


@harness("M08", variants=THREE, target=",".join(CLS.values()) + ",einsteinpy.units:primitive")
def any_units(k, which):
    s = setup(k, which, with_q=which == "KerrNewman")
    m, x = s["m"], s["x"]
    cls = k.get("einsteinpy.metric:" + which)
    args = [coords(k, m.coords.system), k.anyunit(s["M"], "kg", "M")]
    if which != "Schwarzschild":
        args.append(k.anyunit(s["a"], "", "a") if k.sym else k.q(s["a"] * 100, "percent"))
    if which == "KerrNewman":
        args += [k.anyunit(s["Q"], "C", "Q"), k.anyunit(s["q"], "C/kg", "q")]
    m2 = k.call(cls, *args)
    vec = k.array(list(x) + [k.real("u%d" % i) for i in range(4)])
    lam = k.real("lam")
    k.equal("metric", k.call(m2.metric_covariant, x), k.raw(m.metric_covariant, x))
    k.equal("christoffels", k.call(m2.christoffels, x), k.raw(m.christoffels, x))
    k.equal("Schwarzschild radius", m2.sch_rad, m.sch_rad)
    k.equal("f_vec", k.call(m2.f_vec, lam, vec), k.raw(m.f_vec, lam, vec))
    if which == "KerrNewman":
        k.equal("em potential", k.call(m2.em_potential_covariant, x), k.raw(m.em_potential_covariant, x))
        k.equal("em tensor", k.call(m2.em_tensor_covariant, x), k.raw(m.em_tensor_covariant, x))
    if which == "Schwarzschild":
        k.equal("outer horizon", k.call(m2.singularities)["outer_horizon"], m.singularities()["outer_horizon"])
        return
    rs = 2 * gm(k, s["M"])
    k.assume(rs ** 2 - 4 * (s["a"] * gm(k, s["M"])) ** 2 - 4 * (rq2(k, s["Q"]) if s["Q"] is not None else 0) > 0)
    d, d2 = k.call(m.singularities), k.call(m2.singularities)
    for n in ("inner_horizon", "outer_horizon"):
        k.equal(n, d2[n], d[n])
    for n in ("inner_ergosphere", "outer_ergosphere"):
        k.equal(n, k.call(d2[n], x[2]), k.call(d[n], x[2]))


@harness("M08", target=B + "alpha," + B + "sigma," + B + "delta," + B + "rho," + B + "schwarzschild_radius")
def any_units_helpers(k):
    b = k.get("einsteinpy.metric:BaseMetric")
    M, a, Q, r, th = mass(k), spin(k), charge(k), radius(k), k.polar("th")
    Mq, aq, Qq = k.anyunit(M, "kg", "M"), k.anyunit(a, "", "a"), k.anyunit(Q, "C", "Q")
    rq_, tq = k.anyunit(r, "m", "r"), k.anyunit(th, "rad", "th")
    k.equal("alpha", k.call(b.alpha, Mq, aq), a * gm(k, M))
    k.equal("sigma", k.call(b.sigma, rq_, tq, Mq, aq), r ** 2 + (a * gm(k, M)) ** 2 * k.cos(th) ** 2)
    k.equal("rho", k.call(b.rho, rq_, tq, Mq, aq), k.sqrt(r ** 2 + (a * gm(k, M)) ** 2 * k.cos(th) ** 2))
    k.equal("delta", k.call(b.delta, rq_, Mq, aq, Qq), r ** 2 - 2 * gm(k, M) * r + (a * gm(k, M)) ** 2 + rq2(k, Q))
    k.equal("schwarzschild radius", k.call(b.schwarzschild_radius, Mq), 2 * gm(k, M))
    prim = k.get("einsteinpy.units:primitive")
    out = k.call(prim, Mq, rq_, a, Qq, tq)
    for n, got, want in zip("M r a Q th".split(), out, (M, r, a, Q, th)):
        k.equal("primitive %s" % n, got, want)


@harness("M08", variants=[{"bad": b} for b in ("M", "a", "Q", "q")], target=",".join(CLS.values()))
def incompatible_units(k, bad):
    M, a, Q, q = mass(k), spin(k), charge(k), k.real("q")
    for which in ("Schwarzschild", "Kerr", "KerrNewman"):
        args = [("M", M, "kg")] + ([("a", a, "")] if which != "Schwarzschild" else []) + ([("Q", Q, "C"), ("q", q, "C/kg")] if which == "KerrNewman" else [])
        if bad not in [n for n, _, _ in args]:
            continue
        for wrong in ("m", "s", "kg" if bad != "M" else "C"):
            vals = [k.q(v, wrong if n == bad else u) for n, v, u in args]
            k.raises("%s: %s in %s rejected" % (which, bad, wrong), "UnitsError", k.get("einsteinpy.metric:" + which), coords(k, "Spherical"), *vals)
