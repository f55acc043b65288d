"""Contracts of einsteinpy.symbolic (S01-S09).

Symbolic runs: components are opaque smooth functions of the coordinates, SymPy is its contract (engine/symshim.py).
Concrete runs: the real package on the real SymPy with randomly drawn component expressions, compared at random points."""
import itertools
import random
import mpmath
import numpy as np
from engine.registry import harness, contract
from engine import terms as T
from engine.ctx import Reject

SYM = "einsteinpy.symbolic"
NAMES = ("t", "x", "y", "z", "w")


# ---------------------------------------------------------------------------------------------- generic inputs
def coords(k, n):
    return tuple(k.S.Symbol(s) for s in NAMES[:n])


def start(k, sp=None):
    """concrete runs draw their expressions from this seed (an input of the run)"""
    if sp:
        k.ghost["sparse"] = sp
    s = k.real("shape", sample=lambda rng, env: float(rng.randrange(1, 10 ** 6)))
    if not k.sym:
        k.draw_rng = random.Random(int(round(float(s))))
        k.draw_memo = {}


def draw(k, syms, nonzero=False):
    r, S = k.draw_rng, k.S
    q = S.Rational(r.choice([1, 2, 3, -2, 5]), r.choice([1, 2, 3]))
    kind = r.randrange(7 if not nonzero else 5)
    v = r.choice(syms)
    if kind == 0:
        return q
    if kind == 1:
        return q + v ** 2
    if kind == 2:
        return q * S.exp(v)
    if kind == 3:
        return q * S.Symbol("k") * v + 1
    if kind == 4:
        return v * q + 3
    if kind == 5:
        return S.Integer(0)
    return q * S.sin(v) * r.choice(syms)


def fun(k, name, syms, nonzero=False):
    """an arbitrary smooth function of the coordinates"""
    if k.sym:
        return k.S.Function(name)(*syms)
    if name not in k.draw_memo:
        k.draw_memo[name] = draw(k, syms, nonzero)
    return k.draw_memo[name]


PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47)


def sparse_fun(k, seed, name, syms, weight=0.45):
    """zero, a constant or an arbitrary function, decided by the pattern (the same in both modes)"""
    r = random.Random("%s/%s" % (seed, name))
    x = r.random()
    if x < weight:
        return k.S.Integer(0)
    if x < weight + 0.12:
        return k.S.Integer(r.choice(PRIMES))
    return fun(k, name, syms, nonzero=True)


def sparse_entries(k, n, seed, name, syms):
    """a symmetric matrix with many zeros that is not identically singular: a permutation of order two stays non-zero"""
    r = random.Random("perm%s/%d" % (seed, n))
    idx, keep = list(range(n)), set()
    r.shuffle(idx)
    while idx:
        i = idx.pop()
        j = idx.pop() if idx and r.random() < 0.6 else i
        keep.add((min(i, j), max(i, j)))
    g = [[k.S.Integer(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            nm = "%s%d%d" % (name, i, j)
            g[i][j] = g[j][i] = fun(k, nm, syms, nonzero=True) if (i, j) in keep else sparse_fun(k, seed, nm, syms, 0.75)
    return g


def entries(k, n, kind, name, syms):
    """nested list of a symmetric matrix of arbitrary functions"""
    if kind.startswith("sparse"):
        g = sparse_entries(k, n, kind[6:], name, syms)
        if not k.sym and k.S.Matrix(g).det().equals(0):
            raise Reject()
        return g
    g = [[k.S.Integer(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if i != j:
                if kind in ("diag", "flat") or kind == "block" and (i, j) != (0, n - 1):
                    continue
                if not k.sym and n > 2 and (i, j) != (0, n - 1):
                    continue
            if kind == "flat":
                g[i][j] = k.S.Integer(-1 if i == 0 else 1)
            else:
                g[i][j] = g[j][i] = fun(k, "%s%d%d" % (name, i, j), syms, nonzero=i == j)
    if not k.sym and k.S.Matrix(g).det().equals(0):
        raise Reject()
    return g


def metric(k, n, kind="full", config="ll", name="g"):
    syms = coords(k, n)
    g = entries(k, n, kind, name, syms)
    m = k.call(k.get(SYM + ".metric:MetricTensor"), g, syms, config)
    low = g if config == "ll" else inverse(k, g)
    up = inverse(k, g) if config == "ll" else g
    return m, syms, low, up


def inverse(k, g):
    if k.sym:
        r = k.sympy_inverse([[x.t for x in row] for row in g])
        mk = k.S.sympify
        return [[_expr(k, x) for x in row] for row in r]
    return k.S.Matrix(g).inv().tolist()


def _expr(k, t):
    return k.S.Integer(0) + t if not isinstance(t, T.Sym) else k.S.sympify(t)


def comps(k, name, shape, syms, sym_pairs=()):
    """nested list of arbitrary functions; sym_pairs: index positions symmetric under exchange"""
    def f(ix):
        if len(ix) == len(shape):
            c = list(ix)
            for a, b in sym_pairs:
                if c[a] > c[b]:
                    c[a], c[b] = c[b], c[a]
            nm = name + "".join(map(str, c))
            return sparse_fun(k, k.ghost["sparse"], nm, syms) if k.ghost.get("sparse") else fun(k, nm, syms)
        return [f(ix + (i,)) for i in range(shape[len(ix)])]
    return f(())


# ---------------------------------------------------------------------------------------------- comparison
def flat(k, x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(k, y)]
    if hasattr(x, "shape") and hasattr(x, "rank"):
        return [x[()]] if x.shape == () and not k.sym else (list(x._flat) if k.sym else list(k.S.flatten(x.tolist())))
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    return [x]


def shape(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + shape(x[0]) if len(x) else (0,)
    return tuple(getattr(x, "shape", ()))


def same(k, label, got, want):
    """two arrays of expressions have equal components everywhere"""
    if shape(got) != shape(want):
        k.equal(label + " shape", list(shape(got)), list(shape(want)))
        return
    g, w = flat(k, got), flat(k, want)
    if k.sym:
        for ix, a, b in zip(np.ndindex(*shape(want)) if shape(want) else [()], g, w):
            k.equal(label + (str(list(ix)) if ix else ""), term(k, a), term(k, b))
        return
    S = k.S
    fs = sorted(set().union(*[S.sympify(e).free_symbols for e in g + w]), key=lambda s: s.name)
    f = S.lambdify(fs, [S.sympify(e) for e in g] + [S.sympify(e) for e in w], modules="mpmath")
    r = random.Random(str(label))
    for _ in range(2):
        try:
            with mpmath.workdps(40):
                v = f(*[mpmath.mpf(r.uniform(0.5, 1.7)) for _ in fs])
                v = [complex(x) if abs(x) > 1e-11 else 0j for x in v]      # inputs are O(1); the package multiplies by 0.5 as a float
        except (ZeroDivisionError, ValueError, OverflowError):
            raise Reject()
        a, b = v[:len(g)], v[len(g):]
        sc = max([abs(x) for x in b] + [0.0])
        for ix, p, q in zip(np.ndindex(*shape(want)) if shape(want) else [()], a, b):
            k.equal(label + (str(list(ix)) if ix else ""), [p.real, p.imag], [q.real, q.imag], tol=1e-6, scale=sc)


def term(k, e):
    t = getattr(e, "t", None)
    return t if isinstance(t, T.Sym) else T.lift_or_fail(e)


def ident(k, label, got, want):
    """identical objects / equal plain values"""
    k.true(label, got == want)


def state(k, t):
    return (t.tensor(), t.config, tuple(t.syms), t.name)


def frame(k, label, t, before):
    same(k, label + ": components unchanged", t.tensor(), before[0])
    k.true(label + ": configuration, coordinates and name unchanged", (t.config, t.name) == (before[1], before[3]) and list(t.syms) == list(before[2]))


def at(a, ix):
    for i in ix:
        a = a[i]
    return a


def build(shape_, f):
    def g(ix):
        if len(ix) == len(shape_):
            return f(ix)
        return [g(ix + (i,)) for i in range(shape_[len(ix)])]
    return g(())


# ---------------------------------------------------------------------------------------------- specification
def spec_christoffel(k, low, up, syms):
    n, d = len(syms), k.S.diff
    return build((n,) * 3, lambda I: _gamma(k, low, up, syms, d, *I))


def _gamma(k, low, up, syms, d, i, j, l):
    s = 0
    for m in range(len(syms)):
        s = s + (up[i][m] / 2) * (d(low[m][j], syms[l]) + d(low[m][l], syms[j]) - d(low[j][l], syms[m]))
    return s


def spec_riemann(k, G, syms):
    n, d = len(syms), k.S.diff

    def f(I):
        t, s, r, v = I
        x = d(G[t][s][v], syms[r]) - d(G[t][s][r], syms[v])
        for p in range(n):
            x = x + G[p][s][v] * G[t][p][r] - G[p][s][r] * G[t][p][v]
        return x
    return build((n,) * 4, f)


def spec_ricci(R, n):
    def f(I):
        m, v = I
        x = 0
        for a in range(n):
            x = x + at(R, (a, m, a, v))
        return x
    return build((n, n), f)


def spec_scalar(Ric, up, n):
    x = 0
    for i in range(n):
        for j in range(n):
            x = x + up[i][j] * Ric[i][j]
    return x


def spec_config(a, n, old, new, low, up):
    """contract every index whose letter changes with g (lower) or g^-1 (raise)"""
    for p, (o, w) in enumerate(zip(old, new)):
        if o == w:
            continue
        m = up if w == "u" else low

        def f(I, a=a, p=p, m=m):
            x = 0
            for q in range(n):
                x = x + m[I[p]][q] * at(a, I[:p] + (q,) + I[p + 1:])
            return x
        a = build((n,) * len(old), f)
    return a


# ---------------------------------------------------------------------------------------------- callee contracts
def opaque(k, tag, args, name, shape_, syms, sym_pairs=()):
    """the same arbitrary functions for the same arguments"""
    key = (tag, tuple(term(k, e).id for e in args))
    tab = k.ghost.setdefault("opaque", {})
    if key not in tab:
        tab[key] = comps(k, "%s%d_" % (name, len(tab)), shape_, syms, sym_pairs)
    return tab[key]


def gamma_of(k, low, syms):
    n = len(syms)
    return opaque(k, "gamma", flat(k, low), "Gam", (n,) * 3, syms, [(1, 2)])


def riemann_of(k, G, syms):
    n = len(syms)
    return opaque(k, "riemann", flat(k, G), "Rie", (n,) * 4, syms)


def ricci_of(k, low, syms):
    n = len(syms)
    return opaque(k, "ricci", flat(k, low), "Ric", (n,) * 2, syms, [(0, 1)])


def low_of(k, m):
    return nested(k, m.lower_config().tensor())


def nested(k, a):
    return a.tolist()


def c_christoffel(k, metric):
    syms = tuple(metric.symbols())
    return k.get(SYM + ".christoffel:ChristoffelSymbols")(gamma_of(k, low_of(k, metric), syms), syms, config="ull", parent_metric=metric)


contract("christoffel_from_metric", SYM + ".christoffel:ChristoffelSymbols.from_metric", c_christoffel, "christoffel_from_metric")


def c_riemann(k, chris, parent_metric=None):
    if chris.config != "ull":
        chris = chris.change_config(newconfig="ull", metric=parent_metric)
    syms = tuple(chris.symbols())
    return k.get(SYM + ".riemann:RiemannCurvatureTensor")(riemann_of(k, nested(k, chris.tensor()), syms), syms, config="ulll",
                                                           parent_metric=parent_metric if parent_metric is not None else chris.parent_metric)


contract("riemann_from_christoffels", SYM + ".riemann:RiemannCurvatureTensor.from_christoffels", c_riemann, "riemann_from_christoffels")


def c_ricci(k, metric):
    syms = tuple(metric.symbols())
    return k.get(SYM + ".ricci:RicciTensor")(ricci_of(k, low_of(k, metric), syms), syms, config="ll", parent_metric=metric)


contract("ricci_from_metric", SYM + ".ricci:RicciTensor.from_metric", c_ricci, "ricci_tensor")


KINDS = [dict(n=n, kind=kd, config=c) for n in (2, 3, 4) for kd in ("full", "diag") for c in ("ll", "uu")] + \
        [dict(n=4, kind="block", config="ll"), dict(n=4, kind="flat", config="ll"), dict(n=2, kind="flat", config="uu")]
SPARSE = [dict(n=n, kind="sparse%d" % i, config=c) for n, m in ((2, 3), (3, 5), (4, 4)) for i in range(m) for c in (("ll", "uu") if n < 4 else ("ll",))]
SMALL = [dict(n=n, kind=kd, config=c) for n in (2, 3, 4) for kd, c in (("full", "ll"), ("diag", "uu"))] + [dict(n=n, kind="sparse%d" % i, config="ll") for n in (2, 3) for i in (0, 1)]


# ---------------------------------------------------------------------------------------------- S01
@harness("S01", variants=KINDS + SPARSE, budget=120, runs=3, target="ChristoffelSymbols.from_metric")
def christoffel_from_metric(k, n, kind, config):
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    before = state(k, m)
    ch = k.call(k.get(SYM + ".christoffel:ChristoffelSymbols").from_metric, m)
    same(k, "Gamma", ch.tensor(), spec_christoffel(k, low, up, syms))
    same(k, "symmetric", ch.tensor(), build((n,) * 3, lambda I: ch.tensor()[I[0], I[2], I[1]]))
    k.true("configuration, coordinates, parent", ch.config == "ull" and list(ch.symbols()) == list(syms) and ch.parent_metric is m and ch.dims == n and ch.order == 3)
    k.true("class", type(ch).__name__ == "ChristoffelSymbols")
    frame(k, "metric", m, before)


# ---------------------------------------------------------------------------------------------- S02
@harness("S02", variants=[dict(n=n, own=o) for n in (2, 3, 4) for o in (False, True)] + [dict(n=n, own=False, sp=i) for n in (2, 3, 4) for i in (1, 2)], budget=120, runs=3, target="RiemannCurvatureTensor.from_christoffels")
def riemann_from_christoffels(k, n, own, sp=None):
    """any connection (torsion free or not)"""
    start(k, sp)
    syms = coords(k, n)
    m = metric(k, n, "diag")[0] if own else None
    G = comps(k, "G", (n,) * 3, syms)
    ch = k.call(k.get(SYM + ".christoffel:ChristoffelSymbols"), G, syms, parent_metric=m)
    before = state(k, ch)
    R = k.call(k.get(SYM + ".riemann:RiemannCurvatureTensor").from_christoffels, ch)
    same(k, "Riemann", R.tensor(), spec_riemann(k, G, syms))
    k.true("configuration, coordinates, parent", R.config == "ulll" and list(R.symbols()) == list(syms) and R.parent_metric is m and R.order == 4)
    k.true("class", type(R).__name__ == "RiemannCurvatureTensor")
    frame(k, "connection", ch, before)


@harness("S02", variants=[dict(n=2, config=c, given=g) for c in ("lll", "uul", "luu") for g in (False, True)], budget=120, runs=2, target="RiemannCurvatureTensor.from_christoffels")
def riemann_converts(k, n, config, given):
    """a connection given in another configuration is converted with the metric first"""
    start(k)
    m, syms, low, up = metric(k, n, "full")
    G = comps(k, "G", (n,) * 3, syms)
    ch = k.call(k.get(SYM + ".christoffel:ChristoffelSymbols"), G, syms, config=config, parent_metric=None if given else m)
    R = k.call(k.get(SYM + ".riemann:RiemannCurvatureTensor").from_christoffels, ch, **({"parent_metric": m} if given else {}))
    same(k, "Riemann", R.tensor(), spec_riemann(k, spec_config(G, n, config, "ull", low, up), syms))
    k.true("configuration and parent", R.config == "ulll" and R.parent_metric is m)


@harness("S02", variants=SMALL, contracts=["christoffel_from_metric"], budget=120, runs=2, target="RiemannCurvatureTensor.from_metric")
def riemann_from_metric(k, n, kind, config):
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    if not k.sym and (n == 4 or kind == "full" and n > 2):
        raise Reject()
    R = k.call(k.get(SYM + ".riemann:RiemannCurvatureTensor").from_metric, m)
    G = gamma_of(k, low, syms) if k.sym and k.contract_uses else spec_christoffel(k, low, up, syms)
    same(k, "Riemann", R.tensor(), spec_riemann(k, G, syms))
    k.true("configuration and parent", R.config == "ulll" and R.parent_metric is m)


@harness("S02", variants=[dict(n=n) for n in (2, 3, 4)] + [dict(n=3, sp=1)], budget=120, runs=2, target="RiemannCurvatureTensor.from_christoffels")
def riemann_symmetries(k, n, sp=None):
    """antisymmetry in the last pair and the first Bianchi identity, for every torsion-free connection"""
    start(k, sp)
    syms = coords(k, n)
    G = comps(k, "G", (n,) * 3, syms, [(1, 2)])
    R = k.call(k.get(SYM + ".riemann:RiemannCurvatureTensor").from_christoffels, k.call(k.get(SYM + ".christoffel:ChristoffelSymbols"), G, syms)).tensor()
    same(k, "R^t_srn = -R^t_snr", R, build((n,) * 4, lambda I: -R[I[0], I[1], I[3], I[2]]))
    same(k, "R^t_[srn] = 0", build((n,) * 4, lambda I: R[I] + R[I[0], I[2], I[3], I[1]] + R[I[0], I[3], I[1], I[2]]), build((n,) * 4, lambda I: k.S.Integer(0)))


# ---------------------------------------------------------------------------------------------- S03
RIC = SYM + ".ricci:"


@harness("S03", variants=[dict(n=n, config=c, given=g) for n in (2, 3, 4) for c in ("ulll",) for g in (False, True)] +
         [dict(n=2, config=c, given=g) for c in ("llll", "uull", "lluu", "uuuu", "luul") for g in (False, True)] +
         [dict(n=n, config="ulll", given=False, sp=i) for n in (2, 3, 4) for i in (1, 2)], budget=120, runs=2, target="RicciTensor.from_riemann")
def ricci_from_riemann(k, n, config, given, sp=None):
    start(k, sp)
    m, syms, low, up = metric(k, n, "full" if n == 2 else "diag")
    R = comps(k, "R", (n,) * 4, syms)
    rt = k.call(k.get(SYM + ".riemann:RiemannCurvatureTensor"), R, syms, config=config, parent_metric=None if given else m)
    before = state(k, rt)
    ric = k.call(k.get(RIC + "RicciTensor").from_riemann, rt, **({"parent_metric": m} if given else {}))
    want = spec_ricci(spec_config(R, n, config, "ulll", low, up), n)
    same(k, "Ricci", ric.tensor(), want)
    k.true("configuration and parent", ric.config == "ll" and ric.parent_metric is m and list(ric.symbols()) == list(syms) and type(ric).__name__ == "RicciTensor")
    frame(k, "Riemann tensor", rt, before)
    if n == 2:
        sc = k.call(k.get(RIC + "RicciScalar").from_riemann, rt, **({"parent_metric": m} if given else {}))
        same(k, "scalar from Riemann", sc.expr, spec_scalar(want, up, n))
        k.true("scalar parent", sc.parent_metric is m and sc.config == "")


@harness("S03", variants=[dict(route=r, **v) for r in ("metric", "christoffels") for v in SMALL], contracts=["christoffel_from_metric", "riemann_from_christoffels"], budget=120, runs=2,
         target="RicciTensor.from_metric, from_christoffels")
def ricci_tensor(k, route, n, kind, config):
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    if not k.sym and (n == 4 or kind == "full" and n > 2):
        raise Reject()
    cls = k.get(RIC + "RicciTensor")
    if route == "metric":
        ric = k.call(cls.from_metric, m)
    else:
        ch = k.call(k.get(SYM + ".christoffel:ChristoffelSymbols").from_metric, m)
        ric = k.call(cls.from_christoffels, ch)
    G = gamma_of(k, low, syms) if "christoffel_from_metric" in getattr(k, "contract_uses", {}) else spec_christoffel(k, low, up, syms)
    R = riemann_of(k, G, syms) if "riemann_from_christoffels" in getattr(k, "contract_uses", {}) else spec_riemann(k, G, syms)
    same(k, "Ricci", ric.tensor(), spec_ricci(R, n))
    k.true("configuration and parent", ric.config == "ll" and ric.parent_metric is m)


@harness("S03", variants=[dict(n=n, config=c, given=g) for n in (2, 3, 4) for c in ("ll",) for g in (False, True)] + [dict(n=2, config=c, given=False) for c in ("ul", "lu", "uu")] + [dict(n=n, config="ll", given=False, sp=i) for n in (2, 3) for i in (1, 2)],
         budget=120, runs=2, target="RicciScalar.from_riccitensor")
def scalar_from_riccitensor(k, n, config, given, sp=None):
    start(k, sp)
    m, syms, low, up = metric(k, n, "full" if n < 4 else "block")
    A = comps(k, "A", (n, n), syms)
    ric = k.call(k.get(RIC + "RicciTensor"), A, syms, config=config, parent_metric=None if given else m)
    before = state(k, ric)
    sc = k.call(k.get(RIC + "RicciScalar").from_riccitensor, ric, **({"parent_metric": m} if given else {}))
    same(k, "R = g^mn R_mn", sc.expr, spec_scalar(spec_config(A, n, config, "ll", low, up), up, n))
    k.true("parent", sc.parent_metric is m and sc.config == "" and sc.order == 0 and list(sc.symbols()) == list(syms))
    frame(k, "Ricci tensor", ric, before)


@harness("S03", variants=[dict(route=r, n=n) for r in ("metric", "christoffels") for n in (2, 3, 4)], contracts=["christoffel_from_metric", "riemann_from_christoffels"], budget=120, runs=2,
         target="RicciScalar.from_metric, from_christoffels")
def scalar_routes(k, route, n):
    start(k)
    m, syms, low, up = metric(k, n, "full" if n < 3 else "diag")
    if not k.sym and n > 2:
        raise Reject()
    cls = k.get(RIC + "RicciScalar")
    if route == "metric":
        sc = k.call(cls.from_metric, m)
    else:
        sc = k.call(cls.from_christoffels, k.call(k.get(SYM + ".christoffel:ChristoffelSymbols").from_metric, m))
    G = gamma_of(k, low, syms) if "christoffel_from_metric" in getattr(k, "contract_uses", {}) else spec_christoffel(k, low, up, syms)
    R = riemann_of(k, G, syms) if "riemann_from_christoffels" in getattr(k, "contract_uses", {}) else spec_riemann(k, G, syms)
    same(k, "R", sc.expr, spec_scalar(spec_ricci(R, n), up, n))
    k.true("parent", sc.parent_metric is m)


@harness("S03", variants=[dict(route=r) for r in ("ricci", "scalar")], contracts=["riemann_from_christoffels"], budget=60, runs=2, target="Ricci*.from_christoffels with a given metric")
def ricci_given_metric(k, route, sp=None):
    """the metric passed explicitly is used when the connection carries none"""
    start(k, sp)
    n = 2
    m, syms, low, up = metric(k, n, "full")
    G = comps(k, "G", (n,) * 3, syms)
    ch = k.call(k.get(SYM + ".christoffel:ChristoffelSymbols"), G, syms, parent_metric=None)
    R = riemann_of(k, G, syms) if k.sym else spec_riemann(k, G, syms)
    if route == "ricci":
        o = k.call(k.get(RIC + "RicciTensor").from_christoffels, ch, parent_metric=m)
        R = R if k.sym and k.contract_uses else spec_riemann(k, G, syms)
        same(k, "Ricci", o.tensor(), spec_ricci(R, n))
    else:
        o = k.call(k.get(RIC + "RicciScalar").from_christoffels, ch, parent_metric=m)
        R = R if k.sym and k.contract_uses else spec_riemann(k, G, syms)
        same(k, "R", o.expr, spec_scalar(spec_ricci(R, n), up, n))
    k.true("parent", o.parent_metric is m)


# ---------------------------------------------------------------------------------------------- S04, S05
def ricci_spec(k, low, up, syms):
    if "ricci_from_metric" in getattr(k, "contract_uses", {}):
        return ricci_of(k, low, syms)
    return spec_ricci(spec_riemann(k, spec_christoffel(k, low, up, syms), syms), len(syms))


@harness("S04", variants=SMALL, contracts=["ricci_from_metric"], budget=120, runs=2, target="EinsteinTensor.from_metric, StressEnergyMomentumTensor.from_metric")
def einstein_from_metric(k, n, kind, config):
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    if not k.sym and (n == 4 or kind == "full" and n > 2):
        raise Reject()
    before = state(k, m)
    E = k.call(k.get(SYM + ".einstein:EinsteinTensor").from_metric, m)
    S = k.call(k.get(SYM + ".stress_energy_momentum:StressEnergyMomentumTensor").from_metric, m)
    Ric = ricci_spec(k, low, up, syms)
    R = spec_scalar(Ric, up, n)
    G = build((n, n), lambda I: Ric[I[0]][I[1]] - R * low[I[0]][I[1]] / 2)
    same(k, "G_mn", E.tensor(), G)
    k.true("Einstein: configuration and parent", E.config == "ll" and E.parent_metric is m and type(E).__name__ == "EinsteinTensor")
    con = k.get(SYM + ".constants:get_constant")
    c, Gn, L = con("c"), con("G"), con("Cosmo_Const")
    same(k, "T_mn", S.tensor(), build((n, n), lambda I: c ** 4 / (8 * k.S.pi * Gn) * (G[I[0]][I[1]] - L * low[I[0]][I[1]])))
    k.true("stress-energy: configuration and parent", S.config == "ll" and S.parent_metric is m and type(S).__name__ == "StressEnergyMomentumTensor")
    frame(k, "metric", m, before)


@harness("S05", variants=[dict(n=n, kind=kd, config=c) for n in (3, 4, 5) for kd, c in (("full", "ll"), ("diag", "uu"))] , contracts=["ricci_from_metric"], budget=150, runs=2, target="SchoutenTensor.from_metric")
def schouten_from_metric(k, n, kind, config):
    if n == 5 and kind == "full":
        kind = "block"
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    if not k.sym and (n > 3 or kind == "full" and n > 2):
        raise Reject()
    P = k.call(k.get(SYM + ".schouten:SchoutenTensor").from_metric, m)
    Ric = ricci_spec(k, low, up, syms)
    R = spec_scalar(Ric, up, n)
    same(k, "P_mn", P.tensor(), build((n, n), lambda I: (Ric[I[0]][I[1]] - R * low[I[0]][I[1]] / (2 * (n - 1))) / (n - 2)))
    k.true("configuration and parent", P.config == "ll" and P.parent_metric is m and type(P).__name__ == "SchoutenTensor")


def spec_weyl(k, R, low, up, n):
    Rl = spec_config(R, n, "ulll", "llll", low, up)
    Ric = spec_ricci(R, n)
    s = spec_scalar(Ric, up, n)
    P = build((n, n), lambda I: (Ric[I[0]][I[1]] - s * low[I[0]][I[1]] / (2 * (n - 1))) / (n - 2))

    def weyl(I):
        i, a, l, b = I
        return at(Rl, I) - (P[i][l] * low[a][b] + P[a][b] * low[i][l] - P[i][b] * low[a][l] - P[a][l] * low[i][b])
    return build((n,) * 4, weyl)


@harness("S05", variants=[dict(kind=kd, config=c, n=n) for n, kd, c in ((4, "full", "ll"), (4, "diag", "ll"), (4, "diag", "uu"), (5, "flat", "ll"), (5, "diag", "ll"))], contracts=["christoffel_from_metric", "riemann_from_christoffels"], budget=200, runs=1, target="WeylTensor.from_metric")
def weyl_from_metric(k, kind, config, n):
    """n >= 4: the fully covariant Riemann tensor minus the Kulkarni-Nomizu product of the Schouten tensor with g"""
    start(k)
    if not k.sym:
        raise Reject()
    m, syms, low, up = metric(k, n, kind, config)
    C = k.call(k.get(SYM + ".weyl:WeylTensor").from_metric, m)
    u = k.contract_uses
    G = gamma_of(k, low, syms) if "christoffel_from_metric" in u else spec_christoffel(k, low, up, syms)
    R = riemann_of(k, G, syms) if "riemann_from_christoffels" in u else spec_riemann(k, G, syms)
    same(k, "C_iklm", C.tensor(), spec_weyl(k, R, low, up, n))
    k.true("configuration and parent", C.config == "llll" and C.parent_metric is m and type(C).__name__ == "WeylTensor")


@harness("S05", variants=[dict(n=n) for n in (1, 2, 3)], budget=60, runs=2, target="WeylTensor.from_metric, SchoutenTensor.from_metric")
def low_dimensions(k, n):
    start(k)
    m, syms, low, up = metric(k, n, "full" if n < 3 else "diag")
    if n < 3:
        k.raises("Weyl needs three dimensions", "ValueError", k.get(SYM + ".weyl:WeylTensor").from_metric, m)
        k.raises("Schouten needs three dimensions", "ValueError", k.get(SYM + ".schouten:SchoutenTensor").from_metric, m)
        return
    C = k.call(k.get(SYM + ".weyl:WeylTensor").from_metric, m)
    same(k, "zero in three dimensions", C.tensor(), build((n,) * 4, lambda I: k.S.Integer(0)))
    k.true("configuration and parent", C.config == "llll" and C.parent_metric is m)


@harness("S05", variants=[dict(which=w) for w in ("Schwarzschild", "full", "five")], budget=120, runs=1, mode="concrete", target="WeylTensor.from_metric", bounded="Weyl tensor of two concrete 4-dimensional metrics and a 5-dimensional one")
def weyl_concrete(k, which):
    start(k)
    S = k.S
    if which == "five":         # a sphere times flat space: constant curvature scalar
        syms = coords(k, 5)
        g = S.diag(1, S.sin(syms[0]) ** 2, 1, -1, 1).tolist()
        C = k.call(k.get(SYM + ".weyl:WeylTensor").from_metric, k.get(SYM + ".metric:MetricTensor")(g, syms)).tensor()
        up = S.Matrix(g).inv().tolist()
        R = spec_riemann(k, spec_christoffel(k, g, up, syms), syms)
        same(k, "C_iklm", C, spec_weyl(k, R, g, up, 5))
        return
    t, x, y, z = syms = coords(k, 4)
    if which == "Schwarzschild":
        g = S.diag(1 - 2 / x, -1 / (1 - 2 / x), -x ** 2, -x ** 2 * S.sin(y) ** 2).tolist()
    else:
        g = S.diag(-x, 1, t + 2, 1).tolist()
        g[0][3] = g[3][0] = S.Rational(1, 2)
    m = k.get(SYM + ".metric:MetricTensor")(g, syms)
    C = k.call(k.get(SYM + ".weyl:WeylTensor").from_metric, m).tensor()
    up = S.Matrix(g).inv()
    same(k, "trace free", build((4, 4), lambda I: sum(up[a, b] * C[a, I[0], b, I[1]] for a in range(4) for b in range(4))), build((4, 4), lambda I: S.Integer(0)))
    same(k, "antisymmetric", C, build((4,) * 4, lambda I: -C[I[1], I[0], I[2], I[3]]))
    low, syms_ = g, syms
    R = spec_config(spec_riemann(k, spec_christoffel(k, low, up.tolist(), syms), syms), 4, "ulll", "llll", low, up.tolist())
    if which == "Schwarzschild":
        same(k, "vacuum: Weyl = Riemann", C, R)


# ---------------------------------------------------------------------------------------------- S06
CLASSES = {"GenericVector": (".vector", 1), "RicciTensor": (".ricci", 2), "EinsteinTensor": (".einstein", 2), "StressEnergyMomentumTensor": (".stress_energy_momentum", 2),
           "SchoutenTensor": (".schouten", 2), "ChristoffelSymbols": (".christoffel", 3), "RiemannCurvatureTensor": (".riemann", 4), "WeylTensor": (".weyl", 4)}


def configs(r):
    return ["".join(c) for c in itertools.product("ul", repeat=r)]


def pairs(cls):
    r = CLASSES[cls][1]
    cs = configs(r)
    if r < 4:
        return [(a, b) for a in cs for b in cs]
    return [(a, b) for a in ("ulll", "llll", "uulu") for b in cs] + [(a, "ulll") for a in cs]


@harness("S06", variants=[dict(cls=c, n=2, parent=p) for c in CLASSES for p in ("ll", "uu")] + [dict(cls=c, n=3, parent="ll") for c in CLASSES if CLASSES[c][1] < 3] +
         [dict(cls=c, n=2, parent="ll", sp=1) for c in CLASSES] + [dict(cls="RicciTensor", n=3, parent="ll", sp=2), dict(cls="ChristoffelSymbols", n=3, parent="ll", sp=3)],
         budget=150, runs=1, target="*.change_config, _change_config")
def change_config(k, cls, n, parent, sp=None):
    start(k, sp)
    m, syms, low, up = metric(k, n, "full" if k.sym else "diag", parent)
    mod, r = CLASSES[cls]
    K = k.get(SYM + mod + ":" + cls)
    A = comps(k, "A", (n,) * r, syms)
    todo = pairs(cls)
    if not k.sym and len(todo) > 6:
        todo = k.draw_rng.sample(todo, 6)
    mb = state(k, m)
    for i, (a, b) in enumerate(todo):
        given = i % 2 == 1
        t = k.raw(K, A, syms, config=a, parent_metric=None if given else m, name="Nm")
        u = k.call(t.change_config, b, metric=m) if given else k.call(t.change_config, b)
        same(k, "%s->%s" % (a, b), u.tensor(), spec_config(A, n, a, b, low, up))
        k.true("%s->%s class, configuration, name, metric" % (a, b), type(u).__name__ == cls and u.config == b and u.name == "Nm__" + b and u.parent_metric is m
               and list(u.symbols()) == list(syms) and u.order == r)
        same(k, "%s->%s argument unchanged" % (a, b), t.tensor(), A)
        k.true("%s->%s argument configuration unchanged" % (a, b), t.config == a and t.name == "Nm")
    frame(k, "metric", m, mb)


@harness("S06", variants=[dict(cls=c) for c in CLASSES], budget=120, runs=1, target="*.change_config")
def config_round_trip(k, cls):
    """changing back restores the components; another metric passed explicitly wins over the parent"""
    start(k)
    n = 2
    m, syms, low, up = metric(k, n, "full" if k.sym else "diag")
    mod, r = CLASSES[cls]
    K = k.get(SYM + mod + ":" + cls)
    A = comps(k, "A", (n,) * r, syms)
    default = K.change_config.__defaults__[0] if K.change_config.__defaults__ else None
    todo = [(a, b) for a, b in pairs(cls) if a in ("u", "ll", "ull", "ulll") and a != b]
    if not k.sym:
        todo = k.draw_rng.sample(todo, min(3, len(todo)))
    for a, b in todo:
        t = k.raw(K, A, syms, config=a, parent_metric=m)
        back = k.call(k.call(t.change_config, b).change_config, a)
        same(k, "%s->%s->%s" % (a, b, a), back.tensor(), A)
    m2, _, low2, up2 = metric(k, n, "diag", "ll", "h")
    a, b = todo[0]
    t = k.raw(K, A, syms, config=a, parent_metric=m)
    u = k.call(t.change_config, b, metric=m2)
    same(k, "explicit metric is used", u.tensor(), spec_config(A, n, a, b, low2, up2))
    k.true("explicit metric becomes the parent", u.parent_metric is m2)


@harness("S06", variants=[dict(cls=c) for c in CLASSES], budget=30, runs=1, target="*.change_config")
def config_errors(k, cls):
    start(k)
    n = 2
    m, syms, low, up = metric(k, n, "diag")
    mod, r = CLASSES[cls]
    K = k.get(SYM + mod + ":" + cls)
    A = comps(k, "A", (n,) * r, syms)
    cs = configs(r)
    t = k.raw(K, A, syms, config=cs[-1], parent_metric=m)
    for bad in ("u" * (r + 1), "u" * (r - 1), "x" * r, "u" * (r - 1) + "U", "d" + "l" * (r - 1)):
        k.raises("configuration %r rejected" % bad, "ValueError", t.change_config, bad)
    t = k.raw(K, A, syms, config=cs[-1], parent_metric=None)
    k.raises("no metric", "Exception", t.change_config, cs[0])
    k.raises("number of letters", "ValueError", K, A, syms, config="u" * (r + 1))
    k.raises("letters", "TypeError", K, A, syms, config="a" * r)
    k.raises("rank", "ValueError", K, comps(k, "B", (n,) * (r + 1), syms), syms, config=cs[-1])
    for s in {r + 1, r - 1, 1} - {r}:
        k.raises("%d indices in a %s" % (s, cls), "ValueError", K, comps(k, "B", (n,) * s, syms), syms, config="l" * s)
    for bad in (["l"] * r, ("l",) * r, None, 5):
        k.raises("configuration that is not a string", "TypeError", K, A, syms, config=bad)
    k.raises("symbols that are neither a list nor a tuple", "TypeError", K, A, set(syms), config=cs[-1])
    k.raises("dimension", "ValueError", K, comps(k, "B", (n,) * r, syms), coords(k, n + 1), config=cs[-1])


@harness("S06", variants=[dict(cls=c) for c in ("Tensor", "BaseRelativityTensor", "MetricTensor")], budget=30, runs=1, target="Tensor.__init__, BaseRelativityTensor.__init__, MetricTensor.__init__")
def construction_errors(k, cls):
    """a tensor is built only from an array and a string over {u, l} with one letter per index"""
    start(k)
    n = 2
    syms = coords(k, n)
    K = k.get(SYM + (".metric:" if cls == "MetricTensor" else ".tensor:") + cls)
    more = () if cls == "Tensor" else (syms,)
    for r in (2,) if cls == "MetricTensor" else (0, 1, 2, 3, 4):
        A = comps(k, "A", (n,) * r, syms)
        for c in configs(r):
            t = k.call(K, A, *more, config=c)
            k.true("configuration %s and rank %d" % (c, r), t.config == c and t.order == r)
        k.raises("one letter too many", "ValueError", K, A, *more, config="l" * (r + 1))
        if r:
            k.raises("one letter too few", "ValueError", K, A, *more, config="l" * (r - 1))
            for i in range(r):
                for x in ("U", "d", " ", "0"):
                    k.raises("letter %d is %r" % (i, x), "TypeError", K, A, *more, config="l" * i + x + "u" * (r - 1 - i))
            for bad in (["l"] * r, ("u",) * r):
                k.raises("configuration that is not a string", "TypeError", K, A, *more, config=bad)
        for bad in (None, 5, True):
            k.raises("configuration that is not a string", "TypeError", K, A, *more, config=bad)
        if more and r:
            k.raises("symbols that are neither a list nor a tuple", "TypeError", K, A, set(syms), config="l" * r)
            k.raises("another dimension", "ValueError", K, A, coords(k, n + 1), config="l" * r)
    for bad in ("x", None, {1: 2}):
        k.raises("components that are not an array", "TypeError", K, bad, *more, config="l")


@harness("S06", variants=[dict(n=n, kind=kd, config=c) for n in (2, 3, 4) for kd in ("full", "diag") for c in ("ll", "uu")] + [dict(n=n, kind="sparse%d" % i, config="ll") for n in (2, 3, 4) for i in (0, 1, 2)], budget=120, runs=2, target="MetricTensor.inv, lower_config, change_config")
def symbolic_metric_inverse(k, n, kind, config):
    start(k)
    m, syms, low, up = metric(k, n, kind, config)
    before = state(k, m)
    inv = k.call(m.inv)
    other = "uu" if config == "ll" else "ll"
    G = up if config == "ll" else low
    g = low if config == "ll" else up
    same(k, "inv is the inverse", inv.tensor(), G)
    if n < 4 or kind == "diag":
        same(k, "inv times metric is the identity", build((n, n), lambda I: sum([inv.tensor()[I[0], p] * g[p][I[1]] for p in range(n)], k.S.Integer(0))),
             build((n, n), lambda I: k.S.Integer(int(I[0] == I[1]))))
    k.true("inv: class, configuration", type(inv).__name__ == "MetricTensor" and inv.config == other and list(inv.symbols()) == list(syms))
    same(k, "inv of inv", k.call(inv.inv).tensor(), g)
    k.true("inv of inv: configuration", inv.inv().config == config)
    lc = k.call(m.lower_config)
    same(k, "lower_config", lc.tensor(), low)
    k.true("lower_config: configuration", lc.config == "ll")
    same(k, "lower_config of the inverse", k.call(inv.lower_config).tensor(), low)
    ch = k.call(m.change_config, other)
    same(k, "change_config", ch.tensor(), G)
    k.true("change_config: name and configuration", ch.config == other and ch.name == before[3] + "__" + other)
    st = k.call(m.change_config, config)
    same(k, "change_config to itself", st.tensor(), g)
    k.raises("mixed configuration", "ValueError", m.change_config, "ul")
    k.raises("mixed configuration", "ValueError", m.change_config, "lu")
    k.raises("metric has two indices", "ValueError", k.get(SYM + ".metric:MetricTensor"), g, syms, "lll")
    frame(k, "metric", m, before)


# ---------------------------------------------------------------------------------------------- S07
@harness("S07", variants=[dict(r1=a, r2=b) for a in (1, 2, 3) for b in (1, 2)] + [dict(r1=4, r2=2), dict(r1=0, r2=2), dict(r1=2, r2=0), dict(r1=2, r2=3)] + [dict(r1=a, r2=b, sp=i) for a, b in ((1, 1), (2, 2), (3, 2)) for i in (1, 2)], budget=150, runs=1, target="tensor_product")
def tensor_product(k, r1, r2, sp=None):
    start(k, sp)
    n = 2
    syms = coords(k, n)
    m = metric(k, n, "diag")[0]
    B = k.get(SYM + ".tensor:BaseRelativityTensor")
    tp = k.get(SYM + ".tensor:tensor_product")
    a, b = comps(k, "A", (n,) * r1, syms), comps(k, "B", (n,) * r2, syms)
    cs = [(x, y) for x in configs(r1) for y in configs(r2)]
    if len(cs) > 16:
        cs = cs[::len(cs) // 16 + 1] + [cs[-1]]
    if not k.sym:
        cs = k.draw_rng.sample(cs, min(2, len(cs)))
    for c1, c2 in cs:
        t1 = k.raw(B, a, syms, config=c1, parent_metric=m)
        t2 = k.raw(B, b, syms, config=c2, parent_metric=None)
        o = k.call(tp, t1, t2)
        same(k, "outer product", o.tensor(), build((n,) * (r1 + r2), lambda I: at(a, I[:r1]) * at(b, I[r1:])))
        k.true("outer product: configuration", o.config == c1 + c2 and o.parent_metric is m and list(o.syms) == list(syms))
        for i in range(r1):
            for j in range(r2):
                if c1[i] == c2[j]:
                    k.raises("%s[%d] with %s[%d]" % (c1, i, c2, j), "ValueError", tp, t1, t2, i, j)
                    continue
                o = k.call(tp, t1, t2, i, j)

                def f(I, i=i, j=j):
                    x = 0
                    I1, I2 = I[:r1 - 1], I[r1 - 1:]
                    for p in range(n):
                        x = x + at(a, I1[:i] + (p,) + I1[i:]) * at(b, I2[:j] + (p,) + I2[j:])
                    return x
                same(k, "%s[%d] with %s[%d]" % (c1, i, c2, j), o.tensor(), build((n,) * (r1 + r2 - 2), f))
                k.true("%s[%d] with %s[%d]: configuration" % (c1, i, c2, j), o.config == c1[:i] + c1[i + 1:] + c2[:j] + c2[j + 1:] and o.parent_metric is m)
        same(k, "arguments unchanged", [flat(k, t1.tensor()), flat(k, t2.tensor())] if r1 == r2 else flat(k, t1.tensor()) + flat(k, t2.tensor()),
             [flat(k, a), flat(k, b)] if r1 == r2 else flat(k, a) + flat(k, b))


# ---------------------------------------------------------------------------------------------- S08
TRANS = dict(CLASSES, BaseRelativityTensor=(".tensor", None))


@harness("S08", variants=[dict(cls=c, n=2, r=CLASSES[c][1]) for c in CLASSES] + [dict(cls="BaseRelativityTensor", n=2, r=r) for r in (0, 1, 2, 3, 4)] +
         [dict(cls="BaseRelativityTensor", n=4, r=2), dict(cls="BaseRelativityTensor", n=3, r=3), dict(cls="MetricTensor", n=2, r=2), dict(cls="MetricTensor", n=4, r=2)] +
         [dict(cls="BaseRelativityTensor", n=3, r=2, sp=i) for i in (1, 2)] + [dict(cls="RiemannCurvatureTensor", n=2, r=4, sp=3)],
         budget=150, runs=1, target="*.lorentz_transform")
def lorentz_transform(k, cls, n, r, sp=None):
    start(k, sp)
    syms = coords(k, n)
    A = comps(k, "A", (n,) * r, syms, [(0, 1)] if cls == "MetricTensor" else ())
    L = comps(k, "L", (n, n), syms)
    if cls == "MetricTensor":
        K = k.get(SYM + ".metric:MetricTensor")
        todo = ["ll", "uu"]
        m = None
    else:
        K = k.get(SYM + TRANS[cls][0] + ":" + cls)
        todo = configs(r)
        m = metric(k, n, "diag")[0]
    if not k.sym and len(todo) > 2:
        todo = k.draw_rng.sample(todo, 2)
    for c in todo:
        kw = {} if cls == "MetricTensor" else {"parent_metric": m}
        t = k.raw(K, A, syms, config=c, name="Nm", **kw) if r or cls != "MetricTensor" else None
        u = k.call(t.lorentz_transform, L)
        want = A
        for p in range(r):
            def f(I, p=p, a=want):
                x = 0
                for q in range(n):
                    x = x + (L[I[p]][q] if c[p] == "u" else L[q][I[p]]) * at(a, I[:p] + (q,) + I[p + 1:])
                return x
            want = build((n,) * r, f)
        same(k, "transformed " + c, u.tensor(), want)
        k.true("class, configuration, symbols, name " + c, type(u).__name__ == cls and u.config == c and list(u.symbols()) == list(syms) and u.name == "Nm__lt")
        if cls != "MetricTensor":
            k.true("parent metric dropped " + c, u.parent_metric is None)
        else:
            k.true("its own parent metric", u.parent_metric is u)
        same(k, "argument unchanged " + c, t.tensor(), A)
        k.true("argument configuration unchanged " + c, t.config == c and t.name == "Nm")


# ---------------------------------------------------------------------------------------------- S09
@harness("S09", variants=[dict(r=r, form=f) for r in (0, 1, 2, 3, 4) for f in ("pair", "list", "dict")] + [dict(r=3, form="list", sp=1)], budget=60, runs=2, target="Tensor.subs")
def substitution(k, r, form, sp=None):
    """the components are functions of explicit parameters p, q and coordinates; any replacement expression"""
    start(k, sp)
    n = 2
    S = k.S
    syms = coords(k, n)
    p, q = S.Symbol("p"), S.Symbol("q")
    A = comps(k, "A", (n,) * r, syms + (p, q))
    B = k.get(SYM + ".tensor:BaseRelativityTensor")
    new1, new2 = fun(k, "N1", syms), fun(k, "N2", syms + (q,))
    for c in (configs(r) if k.sym else configs(r)[:2]):
        t = k.raw(B, A, syms, config=c, name="Nm")
        if form == "pair":
            u = k.call(t.subs, p, new1)
            w = lambda e: e.subs(p, new1)
        elif form == "list":
            u = k.call(t.subs, [(p, new2), (q, new1)])
            w = lambda e: e.subs(p, new2).subs(q, new1)
        else:
            u = k.call(t.subs, {p: new1, q: S.Integer(3)})
            w = lambda e: e.subs({p: new1, q: 3})
        same(k, "substituted " + c, u.tensor(), build((n,) * r, lambda I: w(S.sympify(at(A, I)))))
        k.true("configuration kept " + c, u.config == c and u.order == r)
        same(k, "argument unchanged " + c, t.tensor(), A)


@harness("S09", variants=[dict(r=r, own=o) for r in (0, 1, 2, 3, 4) for o in (True, False, None)] + [dict(r=3, own=True, sp=1)], budget=60, runs=2, target="Tensor.simplify, simplify_sympy_array")
def simplification(k, r, own, sp=None):
    start(k, sp)
    n = 2
    syms = coords(k, n)
    A = comps(k, "A", (n,) * r, syms)
    B = k.get(SYM + ".tensor:BaseRelativityTensor")
    t = k.raw(B, A, syms, config=configs(r)[-1])
    res = k.call(t.simplify) if own is None else k.call(t.simplify, own)
    same(k, "value returned", res, A if r else A)
    same(k, "value kept", t.tensor(), A)
    k.true("configuration kept", t.config == configs(r)[-1])


@harness("S09", variants=[dict(r=r, order=o) for r in (0, 1, 2, 3, 4) for o in ("default", "reversed", "given", "variables")], budget=60, runs=2, target="BaseRelativityTensor.tensor_lambdify")
def lambdified(k, r, order):
    start(k)
    n = 2
    S = k.S
    syms = coords(k, n)[::-1]           # coordinate order differs from alphabetical order
    p, b = S.Symbol("p"), S.Symbol("b")

    def e(I):
        s = b * (1 + sum(I)) + p * syms[0] ** (1 + sum(I[:1])) + syms[1] * (2 + sum(i * 3 ** j for j, i in enumerate(I)))
        return s / (1 + syms[0] ** 2 * p ** 2)
    A = build((n,) * r, e)
    B = k.get(SYM + ".tensor:BaseRelativityTensor")
    t = k.raw(B, A, syms, config=configs(r)[-1], **({"variables": [p, b]} if order == "variables" else {}))
    want_args = {"default": tuple(syms) + (b, p), "variables": tuple(syms) + (p, b), "reversed": (p, b) + tuple(syms)[::-1], "given": (b, syms[0], p, syms[1])}[order]
    args, f = k.call(t.tensor_lambdify) if order in ("default", "variables") else k.call(t.tensor_lambdify, *want_args)
    k.true("argument order", list(args) == list(want_args)[:len(args)] and len(args) == len(want_args))
    vals = [k.pos("v%d" % i) for i in range(4)]
    res = k.call(f, *vals)
    if k.sym:
        want = build((n,) * r, lambda I: _num(k, at(A, I), want_args, vals))
        got = res
        k.equal("value", got.tolist() if hasattr(got, "tolist") and r else got, want)
    else:
        want = np.array(build((n,) * r, lambda I: float(S.sympify(at(A, I)).subs(list(zip(want_args, [S.Float(float(v)) for v in vals]))))), dtype=float)
        k.equal("value", np.asarray(res, dtype=float).ravel(), want.ravel())


def _num(k, e, args, vals):
    m = {a.t: T.lift_or_fail(v) for a, v in zip(args, vals)}
    return T.subst(term(k, e), m)


@harness("S09", budget=30, runs=1, target="BaseRelativityTensor.__init__")
def free_variables(k):
    """the symbols other than the coordinates are found and ordered by name; given lists are kept"""
    start(k)
    S = k.S
    syms = coords(k, 2)
    p, b, q = S.Symbol("p"), S.Symbol("b"), S.Symbol("Q")
    t = k.call(k.get(SYM + ".tensor:BaseRelativityTensor"), [p * syms[0], b + q], syms, config="u")
    k.true("variables", [v.name for v in t.variables] == ["Q", "b", "p"])
    t = k.call(k.get(SYM + ".tensor:BaseRelativityTensor"), [p * syms[0], b + q], syms, config="u", variables=[q, p, b])
    k.true("given variables", [v.name for v in t.variables] == ["Q", "p", "b"])


# ---------------------------------------------------------------------------------------------- S11
TM = SYM + ".helpers:TransformationMatrix"


def chart(k, n):
    """new coordinates, old coordinates, and the old ones as arbitrary functions of the new ones whose partial derivatives vanish nowhere"""
    S = k.S
    new = [S.Symbol(s) for s in ("p", "q", "s", "u")[:n]]
    old = [S.Symbol(s) for s in ("x", "y", "z", "w")[:n]]
    if k.sym:
        return new, old, [S.Function("old%d" % j)(*new) for j in range(n)]
    fs = []
    for j in range(n):
        e = S.Integer(k.draw_rng.choice([1, 2, 3]))
        for v in new:
            e = e * k.draw_rng.choice([S.exp(v), S.sin(v), v ** 2, v, 1 + v ** 2])
        fs.append(e + k.draw_rng.choice([0, 1, new[0]]))
    return new, old, fs


def built(k, n):
    new, old, fs = chart(k, n)
    M = k.call(k.get(TM).from_new2old, old, new, fs)
    return new, old, fs, M, build((n, n), lambda I: k.S.diff(fs[I[1]], new[I[0]]))


@harness("S11", variants=[dict(n=n) for n in (2, 3, 4)], budget=60, runs=4, target="TransformationMatrix.from_new2old, TransformationMatrix.inv")
def chart_change(k, n):
    start(k)
    new, old, fs, M, J = built(k, n)
    kept = flat(k, M)
    k.true("shape", tuple(M.shape) == (n, n))
    k.true("coordinates", list(M.old_coords) == list(old) and list(M.new_coords) == list(new))
    k.true("expressions", list(M.new2old) == list(fs) and M.old2new is None)
    inv = k.call(M.inv)
    same(k, "the inverse is the Jacobian of the old coordinates", inv, J)
    same(k, "the inverse again", k.call(M.inv), J)
    same(k, "the matrix is not changed", flat(k, M), kept)
    k.true("shape of the inverse", tuple(inv.shape) == (n, n))


@harness("S11", variants=[dict(n=n) for n in (2, 3)], budget=60, runs=4, target="TransformationMatrix.from_new2old, TransformationMatrix.inv")
def chart_change_inverse(k, n):
    start(k)
    new, old, fs, M, J = built(k, n)
    inv = k.call(M.inv)
    A, B = flat(k, M), flat(k, inv)
    same(k, "the product with the inverse is the identity", build((n, n), lambda I: sum([A[n * I[0] + p] * B[n * p + I[1]] for p in range(n)], k.S.Integer(0))),
         build((n, n), lambda I: k.S.Integer(int(I[0] == I[1]))))


@harness("S11", variants=[dict(n=n, how=h) for n in (2, 3) for h in ("list", "array")] + [dict(n=2, how="shape")], budget=30, runs=3, target="TransformationMatrix.__new__, TransformationMatrix.__init__")
def chart_matrix(k, n, how):
    """the entries, coordinates and expressions given are kept; only rank 2 is accepted"""
    start(k)
    new, old, fs = chart(k, n)
    back = [fun(k, "B%d" % i, tuple(old)) for i in range(n)]
    A = comps(k, "M", (n, n), tuple(new))
    K = k.get(TM)
    arg = A if how == "list" else k.S.Array(A)
    M = k.call(K, flat(k, A), old, new, shape=(n, n)) if how == "shape" else k.call(K, arg, old, new, old2new=back, new2old=fs)
    same(k, "entries", M, A)
    k.true("coordinates", list(M.old_coords) == list(old) and list(M.new_coords) == list(new))
    if how != "shape":
        k.true("expressions", list(M.new2old) == list(fs) and list(M.old2new) == list(back))
    else:
        k.true("expressions", M.new2old is None and M.old2new is None)
    for r in (1, 3):
        k.raises("rank %d" % r, "ValueError", K, comps(k, "R%d" % r, (n,) * r, tuple(new)), old, new)
    k.raises("from_old2new is not available", "NotImplementedError", K.from_old2new, old, new, back)
