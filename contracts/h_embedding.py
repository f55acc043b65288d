"""Contracts of einsteinpy.hypersurface.SchwarzschildEmbedding (H01).

radial_coord and gradient are under contract for every radius; the sampling loops are verified with loop invariants
(engine/loops.py: r = r0 + i*h, Z(i+1) = Z(i) + gradient(r_i)*h) for every number of iterations."""
import numpy as np
from engine.registry import harness
from engine import terms as T
from engine.ctx import Reject

EM = "einsteinpy.hypersurface.schwarzschildembedding:SchwarzschildEmbedding"
UNIT = 1e23


def embedding(k):
    """m: the mass in the class' unit, 1e23 kg"""
    m = k.pos("m", sample=lambda rng, env: 10 ** rng.uniform(-1, 4))
    scale = T.const(10) ** 23 if k.sym else UNIT
    E = k.call(k.get(EM), k.anyunit(m * scale, "kg", "M"))
    return E, m


def slope(k, m, r):
    """the quantity the class integrates: |dZ/dr| up to the factor sqrt(R) (see embedding_slope), signed like r - 3m"""
    f = 1 - 2 * m / r
    return (r - 3 * m) / r * k.sqrt((4 * m * r - 9 * m ** 2) * r / k.sqrt(f) / (r - 3 * m) ** 2) / k.sqrt(f) ** 3


def sphere_radius(k, m, r):
    return r / k.sqrt(1 - 2 * m / r)


def radius(k, m, hi=20):
    r = k.pos("r", sample=lambda rng, env: (env.get("m") or 1) * rng.uniform(2.26, 20))
    k.assume(4 * r > 9 * m)
    return r


@harness("H01", target=EM + ".__init__," + EM + ".radial_coord," + EM + ".gradient")
def embedding_geometry(k):
    E, m = embedding(k)
    r0 = k.pos("r0", sample=lambda rng, env: (env.get("m") or 1) * rng.uniform(2.01, 20))
    k.assume(r0 > 2 * m)
    k.equal("radial coordinate of the embedding", k.call(E.radial_coord, r0), sphere_radius(k, m, r0))
    r = radius(k, m)
    k.assume(r != 3 * m)
    k.equal("gradient", k.call(E.gradient, r), slope(k, m, r))
    tenth = T.const("1/10000") if k.sym else 1e-4
    k.equal("sampling starts just outside 3m", E.r_init.value, 3 * m + tenth)


@harness("H01", target=EM + ".gradient")
def embedding_slope(k):
    """isometric embedding: (dZ/dr)^2 = 1/f^2 - (dR/dr)^2 with f = 1 - 2m/r and R = r/sqrt(f)"""
    E, m = embedding(k)
    r = radius(k, m)
    k.assume(r != 3 * m)
    f = 1 - 2 * m / r
    dR = (1 - 3 * m / r) / k.sqrt(f) ** 3
    k.equal("square of the gradient is that of the embedding", k.call(E.gradient, r) ** 2, 1 / f ** 2 - dR ** 2)


def sampled(k, E, m, alpha):
    """(start, step, radius bounds) of the sampling"""
    start = 3 * m + (T.const("1/10000") if k.sym else 1e-4)
    return start, m / alpha


def scale(k):
    return k.pos("alpha", sample=lambda rng, env: rng.choice([1.0, 3.0, 10.0, 100.0, rng.uniform(0.5, 50)]))


def curve(k, E, m, start, h, stop):
    """concrete mode: the samples from start in steps of h while stop(r) is false"""
    xs, ys, z, r = [], [], 0.0, start
    while not stop(r):
        xs.append(sphere_radius(k, m, r))
        ys.append(z)
        z += slope(k, m, r) * h
        r += h
        if len(xs) > 200000:
            raise Reject()
    return xs, ys, r


def not_photon_sphere(k, m, start, h):
    """precondition: no sample falls exactly on r = 3m, where the gradient is 0/0"""
    k.loop_hook = lambda loc, id, i: [k.assume(start + s * i * h != 3 * m) for s in (1, -1)]


def check_segment(k, what, loop, xs, ys, m, start, h, inside):
    """the samples 0, j, j+1 of one loop, for an arbitrary j"""
    N, reps = loop["N"], loop["reps"]
    k.true(what + ": no sample is missing at the end", T.bnot(inside(start + N * h)))
    if len(reps):
        k.true(what + ": last sample inside the range", inside(start + (N - 1) * h))
    for n, j in enumerate(reps):
        k.equal(what + ": R of a sample", xs[n], sphere_radius(k, m, start + j * h))
    if len(reps):
        k.equal(what + ": Z starts at 0", ys[0], T.const(0))
    if len(reps) == 3:
        r = start + reps[1] * h
        k.equal(what + ": Z accumulates gradient times step", ys[2] - ys[1], slope(k, m, r) * abs_step(h))


def abs_step(h):
    return -h if h.op == "neg" else h


@harness("H01", target=EM + ".get_values")
def embedding_curve(k):
    E, m = embedding(k)
    alpha = scale(k)
    start, h = sampled(k, E, m, alpha)
    if k.sym:
        not_photon_sphere(k, m, start, h)
    xs, ys = k.call(E.get_values, alpha)
    if not k.sym:
        x1, y1, r1 = curve(k, E, m, start, h, lambda r: not r < 9 * m)
        x2, y2, r2 = [], [], start
        z = 0.0
        while r2 > 9 * m / 4:
            x2.append(sphere_radius(k, m, r2))
            y2.append(z)
            z += slope(k, m, r2) * h
            r2 -= h
        edge = [abs(r - e) / m < 1e-9 for r, e in ((r1, 9 * m), (r1 - h, 9 * m), (r2, 9 * m / 4), (r2 + h, 9 * m / 4))]
        if any(edge):
            return          # the last sample is decided by rounding
        if not np.all(np.isfinite(y1 + y2)):
            return
        k.equal("R", np.array(xs), np.array(x1 + x2), tol=1e-7)
        k.equal("Z", np.array(ys), np.array(y1 + y2), tol=1e-6)
        return
    L = k.loops
    k.true("outward, then inward", len(L) == 2)
    n = len(L[0]["reps"])
    k.true("one R and one Z per sample", len(xs) == n + len(L[1]["reps"]) and len(ys) == len(xs))
    check_segment(k, "outward", L[0], xs[:n], ys[:n], m, start, h, lambda r: r < 9 * m)
    check_segment(k, "inward", L[1], xs[n:], ys[n:], m, start, -h, lambda r: r > 9 * m / 4)


@harness("H01", target=EM + ".get_values_surface")
def embedding_surface(k):
    E, m = embedding(k)
    alpha = scale(k)
    start, h = sampled(k, E, m, alpha)
    if k.sym:
        not_photon_sphere(k, m, start, h)
    X, Y, Z = k.call(E.get_values_surface, alpha)
    phi = [2 * k.pi * (T.const("%d/59" % i) if k.sym else i / 59) for i in range(60)]
    if not k.sym:
        x1, y1, r1 = curve(k, E, m, start, h, lambda r: not r < 20 * m)
        if any(abs(r - 20 * m) / m < 1e-9 for r in (r1, r1 - h)) or not np.all(np.isfinite(y1)):
            return
        x1, y1 = np.array(x1), np.array(y1)
        k.equal("X", np.asarray(X), np.outer(np.cos(phi), x1), tol=1e-6)
        k.equal("Y", np.asarray(Y), np.outer(np.sin(phi), x1), tol=1e-6, scale=float(np.max(x1)))
        k.equal("Z", np.ravel(Z), np.ravel(np.outer(np.ones(60), y1)), tol=1e-6)
        return
    loop = k.loops[0]
    k.true("one sampling loop", len(k.loops) == 1)
    n = len(loop["reps"])
    k.true("60 azimuths per sample", np.shape(X) == (60, n) and np.shape(Y) == (60, n) and np.size(Z) == 60 * n)
    Zf = np.ravel(Z)
    check_segment(k, "profile", loop, [sphere_radius(k, m, start + j * h) for j in loop["reps"]], list(Zf[:n]), m, start, h, lambda r: r < 20 * m)
    for a in range(60):
        for b, j in enumerate(loop["reps"]):
            R = sphere_radius(k, m, start + j * h)
            k.equal("X", X[a, b], R * k.cos(phi[a]))
            k.equal("Y", Y[a, b], R * k.sin(phi[a]))
            k.equal("Z", Zf[a * n + b], Zf[b])
