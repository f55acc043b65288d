"""Contracts of einsteinpy.plotting (P01): what is handed to the drawing back ends.

matplotlib and plotly are external: a recorder stands for them in both modes and every drawing call is a ghost log.
np.linspace is represented by its contract (values in [a, b], the ends included): a grid of symbolic angles."""
import numpy as np
from engine.registry import harness
from engine import ctx, loader
from engine import terms as T
from engine.ctx import Reject

STATIC = "einsteinpy.plotting.geodesic.static:StaticGeodesicPlotter"
INTER = "einsteinpy.plotting.geodesic.interactive:InteractiveGeodesicPlotter"
DRAW = ("matplotlib", "matplotlib.pyplot", "matplotlib.animation", "matplotlib.patches", "mpl_toolkits", "mpl_toolkits.mplot3d", "plotly", "plotly.graph_objects", "plotly.offline", "IPython")


def world(k):
    """the class under test with recorded back ends; returns (get, log)"""
    if k.sym:
        return k.get, k.log
    log = []
    w = loader.World({n: loader.Recorder(n, log) for n in DRAW}, sym=False)
    return w.get, log


def grid(k):
    """np.linspace(a, b, n): n values from a to b (contract): a generic grid"""
    if not k.sym:
        return
    cache = {}

    def linspace(a, b, num=50, endpoint=True, **kw):
        la, lb = T.lift_or_fail(a), T.lift_or_fail(b)
        key = (la.id, lb.id, endpoint)
        if key not in cache:
            v = k.pos("angle%d" % len(cache), sample=lambda rng, env: rng.uniform(0.1, 3.0))
            k.assume(T.lift_or_fail(v) < lb)
            cache[key] = [la, v, lb]
        out = np.empty(3, dtype=object)
        out[:] = cache[key]
        return out
    k.np.linspace = linspace


class Geod:
    """a trajectory: n rows (t, x1, x2, x3, p_t, p_1, p_2, p_3) and the parameter values"""
    def __init__(self, k, a, n=2):
        self.metric_params = (a,)
        rows = [[k.real("s%d_%d" % (i, j)) for j in range(8)] for i in range(n)]
        lam = [k.real("lam%d" % i) for i in range(n)]
        self.trajectory = (k.array(lam), k.array(rows))
        self.kind, self.coords, self.metric = "Time-like", "Cartesian", "Kerr"


def spin(k):
    return k.real("a", "unit", sample=lambda rng, env: rng.choice([0.0, 1.0, 0.5, rng.uniform(0, 1)]))


def calls(log, *ends):
    return [(a, kw) for n, a, kw, _ in log if any(n.endswith("." + e) for e in ends)]


def label(kw):
    return str(kw.get("label", kw.get("name", "")))


def surface_of(a, kw):
    return a[:3] if len(a) >= 3 else (kw["x"], kw["y"], kw["z"])


def line_of(a, kw):
    if "x" in kw:
        return tuple(kw[c] for c in "xyz" if c in kw)
    return tuple(x for x in a if not isinstance(x, str))


def horizon(k, a):
    return 1 + k.sqrt(1 - a ** 2)


def check_horizon(k, what, pts, a):
    rh = horizon(k, a)
    for i, p in enumerate(pts):
        k.equal("%s: horizon radius %d" % (what, i), sum(c ** 2 for c in p), rh ** 2)


def check_ergosphere(k, what, pts, a):
    """last coordinate along the axis"""
    for i, p in enumerate(pts):
        s = sum(c ** 2 for c in p)
        k.equal("%s: ergosphere radius %d" % (what, i), s, (1 + k.sqrt(1 - a ** 2 * p[-1] ** 2 / s)) ** 2)


def pick(k, arrays):
    """points of a mesh: all of them symbolically, a sample concretely"""
    flat = [np.asarray(x).ravel() for x in arrays]
    if len({len(f) for f in flat}) != 1:
        return None
    pts = list(zip(*flat))
    if not k.sym:
        pts = pts[::37] + [pts[-1]]
    return pts


def check_cover(k, what, arrays, r):
    """the whole closed surface is sampled (concrete runs: extents and spacing)"""
    if k.sym:
        return
    for n, x in zip("xyz", arrays):
        x = np.asarray(x)
        k.true("%s: extent in %s" % (what, n), x.max() > 0.97 * r and x.min() < -0.97 * r)


def black_hole(k, log, a, dims, draw, what):
    surf = calls(log, "plot_surface", "Surface") if dims == 3 else [c for c in calls(log, "fill", "Scatter") if "fill" in c[1] or label(c[1]).startswith("BH")]
    hor = [c for c in surf if "Horizon" in label(c[1])]
    erg = [c for c in surf if "Ergosphere" in label(c[1])]
    k.true(what + ": one horizon", len(hor) == 1)
    k.true(what + ": ergosphere drawn exactly when asked", len(erg) == (1 if draw else 0) and len(surf) == len(hor) + len(erg))
    for c, check in [(c, check_horizon) for c in hor] + [(c, check_ergosphere) for c in erg]:
        arr = surface_of(*c) if dims == 3 else line_of(*c)[:2]
        pts = pick(k, arr)
        k.true(what + ": same number of x, y, z", pts is not None)
        check(k, what, pts, a)
        if check is check_horizon:
            check_cover(k, what, arr, float(horizon(k, a)) if not k.sym else None)
        else:
            check_cover(k, what, arr, 1 + 0.99 * float(k.sqrt(1 - a * a)) if not k.sym else None)


def drawn(k, what, c, want):
    got = line_of(*c)
    k.true(what + ": number of coordinates", len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        k.equal("%s: column %d" % (what, i), np.asarray(g), np.asarray(w))


BOTH = [dict(which=w, erg=e) for w in ("static", "interactive") for e in (True, False)]


def plotter(k, which, **kw):
    grid(k)
    get, log = world(k)
    P = get(STATIC if which == "static" else INTER)
    return k.call(P, **kw), log


@harness("P01", variants=BOTH, budget=60, runs=4, target="*GeodesicPlotter.plot")
def plot_3d(k, which, erg):
    p, log = plotter(k, which, draw_ergosphere=erg, bh_colors=("#123", "#456"))
    a = spin(k)
    g = Geod(k, a)
    del log[:]
    k.call(p.plot, g, color="#abc", title="T")
    black_hole(k, log, a, 3, erg, "plot")
    curve = calls(log, "Scatter3d") if which == "interactive" else [c for c in calls(log, "plot") if len(line_of(*c)) >= 2]
    k.true("one curve", len(curve) == 1)
    t = g.trajectory[1]
    drawn(k, "curve", curve[0], (t[:, 1], t[:, 2], t[:, 3]))
    k.true("kind in the legend", "Time-like" in label(curve[0][1]))
    colours(k, log, which, erg)


def colours(k, log, which, erg):
    for c in calls(log, "plot_surface", "Surface", "fill"):
        s = str(c[1].get("color", c[1].get("colorscale", "")) or "") + "".join(x for x in c[0] if isinstance(x, str))
        k.true("colour of " + label(c[1]), ("#123" in s) == ("Horizon" in label(c[1])) and ("#456" in s) == ("Ergosphere" in label(c[1])))


@harness("P01", variants=[dict(v, A=A, B=B) for v in BOTH for A, B in ((1, 2), (2, 3), (3, 1), (1, 1))], budget=60, runs=3, target="*GeodesicPlotter.plot2D")
def plot_2d(k, which, erg, A, B):
    p, log = plotter(k, which, draw_ergosphere=erg, bh_colors=("#123", "#456"))
    a = spin(k)
    g = Geod(k, a)
    del log[:]
    if (A, B) == (1, 2):
        k.call(p.plot2D, g, color="#abc")
    else:
        k.call(p.plot2D, g, coordinates=(A, B), color="#abc", title="T")
    black_hole(k, log, a, 2, erg, "plot2D")
    curve = [c for c in calls(log, "plot", "Scatter") if not label(c[1]).startswith("BH") and len(line_of(*c)) >= 2]
    k.true("one curve", len(curve) == 1)
    t = g.trajectory[1]
    drawn(k, "curve", curve[0], (t[:, A], t[:, B]))
    text = repr([(n, x, kw) for n, x, kw, _ in log if "label" in n or "layout" in n])
    k.true("axes labelled with the chosen coordinates", "X%d" % A in text and "X%d" % B in text)


@harness("P01", variants=[dict(which=w) for w in ("static", "interactive")], budget=60, runs=3, target="*GeodesicPlotter.parametric_plot")
def plot_parametric(k, which):
    p, log = plotter(k, which)
    g = Geod(k, spin(k), 3)
    del log[:]
    k.call(p.parametric_plot, g, colors=("#001", "#002", "#003"))
    curves = [c for c in calls(log, "plot", "Scatter") if len(line_of(*c)) >= 2]
    k.true("three curves", len(curves) == 3)
    lam, t = g.trajectory
    for i in (1, 2, 3):
        mine = [c for c in curves if "X%d" % i in label(c[1])]
        k.true("one curve for X%d" % i, len(mine) == 1)
        drawn(k, "X%d" % i, mine[0], (lam, t[:, i]))
        k.true("colour of X%d" % i, "#00%d" % i in repr(mine[0][1]))


@harness("P01", variants=[dict(which=w) for w in ("static", "interactive")], budget=60, runs=2, target="*GeodesicPlotter.plot, plot2D")
def plot_errors(k, which):
    p, log = plotter(k, which)
    g = Geod(k, spin(k), 2)
    good = ("auto", "equal", "equalxy", "equalyz", "equalxz") if which == "static" else ("auto", "data", "manual", "cube")
    for s in good:
        k.call(p.plot, g, aspect=s)
    for s in ("", "Auto", "equalzx", "equalx", "square", "dat", "xyz") + (("data", "manual", "cube") if which == "static" else ("equal", "equalxy")):
        k.raises("aspect %r" % s, "ValueError", p.plot, g, aspect=s)
    A = k.real("A", sample=lambda rng, env: rng.choice([-1.0, 0.0, 4.0, 5.0, 1.5, -3.0]))
    k.assume(A != 1)
    k.assume(A != 2)
    k.assume(A != 3)
    for ok in (1, 2, 3):
        k.raises("first coordinate index", "IndexError", p.plot2D, g, coordinates=(A, ok))
        k.raises("second coordinate index", "IndexError", p.plot2D, g, coordinates=(ok, A))
    for i in (-1, 0, 4, 5, 6, 7):
        k.raises("coordinate index %d" % i, "IndexError", p.plot2D, g, coordinates=(i, 2))
        k.raises("coordinate index %d" % i, "IndexError", p.plot2D, g, coordinates=(3, i))


@harness("P01", variants=[dict(order=o) for o in ((0, 1, 2), (2, 0, 1))], budget=60, runs=3, target="StaticGeodesicPlotter.animate")
def animation(k, order):
    """three frames whose coordinates are ordered as given"""
    p, log = plotter(k, "static")
    a = spin(k)
    g = Geod(k, a, 3)
    t = g.trajectory[1]
    for j in (1, 2, 3):
        for x, y in zip(order, order[1:]):
            k.assume(t[x][j] < t[y][j])
    del log[:]
    k.call(p.animate, g, interval=7)
    black_hole(k, log, a, 3, True, "animate")
    an = calls(log, "FuncAnimation")
    k.true("one animation", len(an) == 1)
    pos, kw = an[0]
    upd, frames = pos[1], (pos[2] if len(pos) > 2 else kw.get("frames"))
    k.true("one frame per row", frames == 3)
    for num in range(4):
        del log[:]
        k.raw(upd, num, *kw.get("fargs", ()))
        flat, third = calls(log, "set_data"), calls(log, "set_3d_properties")
        k.true("frame %d drawn" % num, len(flat) == 1 and len(third) == 1)
        xy = flat[0][0][0] if len(flat[0][0]) == 1 else np.array(list(flat[0][0]), dtype=object)
        k.equal("frame %d: x, y" % num, np.asarray(xy), np.asarray([[t[i][j] for i in range(num)] for j in (1, 2)], dtype=object if k.sym else float).reshape(2, num))
        k.equal("frame %d: z" % num, np.asarray(third[0][0][0]), np.asarray([t[i][3] for i in range(num)], dtype=object if k.sym else float))


# ---------------------------------------------------------------------------------------------- hypersurface, shadow
class Embedding:
    def __init__(self, k):
        self.X = np.empty((2, 3), dtype=object if k.sym else float)
        self.Y, z = self.X.copy(), []
        for i in range(2):
            for j in range(3):
                self.X[i, j], self.Y[i, j] = k.real("X%d%d" % (i, j)), k.real("Y%d%d" % (i, j))
                z.append(k.real("Z%d%d" % (i, j)))
        self.Z = k.array(z)
        self.asked = []

    def get_values_surface(self, alpha):
        self.asked.append(alpha)
        return self.X, self.Y, self.Z


@harness("P01", variants=[dict(kind=s) for s in ("wireframe", "surface")], budget=30, runs=2, target="HypersurfacePlotter.plot")
def plot_hypersurface(k, kind):
    get, log = world(k)
    e = Embedding(k)
    al = k.pos("alpha")
    p = k.call(get("einsteinpy.plotting.hypersurface.core:HypersurfacePlotter"), e, kind, al)
    del log[:]
    k.call(p.plot)
    c = calls(log, "plot_wireframe" if kind == "wireframe" else "plot_surface")
    k.true("one surface of the kind asked for", len(c) == 1 and len(calls(log, "plot_wireframe", "plot_surface")) == 1)
    k.equal("step scale passed on", e.asked, [al])
    x, y, z = surface_of(*c[0])
    k.equal("X", np.asarray(x), e.X)
    k.equal("Y", np.asarray(y), e.Y)
    k.equal("Z", np.asarray(z), np.asarray(e.Z).reshape(2, 3))


class Rays:
    def __init__(self, k, n=3):
        self.fb1 = [k.pos("b%d" % i) for i in range(n)]
        self.fb2 = k.array([-x for x in self.fb1])
        self.intensity = [k.pos("I%d" % i) for i in range(n)]


@harness("P01", variants=[dict(line=b) for b in (True, False)], budget=30, runs=2, target="ShadowPlotter.plot, show")
def plot_shadow(k, line):
    grid(k)
    get, log = world(k)
    s = Rays(k)
    p = k.call(get("einsteinpy.plotting.rays.shadow:ShadowPlotter"), s, line)
    del log[:]
    k.call(p.plot)
    if line:
        c = calls(log, "plot")
        k.true("two curves", len(c) == 2)
        drawn(k, "right half", c[0], (s.fb1, s.intensity))
        drawn(k, "left half", c[1], (s.fb2, s.intensity))
        return
    k.call(p.show)
    c = calls(log, "pcolormesh")
    k.true("one mesh", len(c) == 1)
    x, y, v = (np.asarray(z) for z in c[0][0][:3])
    k.true("mesh shapes", x.shape == y.shape == v.shape and x.shape[1] == 3)
    for i in range(x.shape[0]):
        for j in range(3):
            k.equal("radius[%d,%d]" % (i, j), x[i, j] ** 2 + y[i, j] ** 2, s.fb1[j] ** 2)
            k.equal("intensity[%d,%d]" % (i, j), v[i, j], s.intensity[j])
