"""Exact normal form for real-analytic terms.

A term is brought to  num / (int * product of registered factors)  where num is an integer polynomial in
atoms, reduced modulo the defining relations of the atoms (s^2 = 1-c^2, w^2 = P for square roots,
u^q = P for roots, ...).  num = {} proves the term is zero wherever the factors do not vanish.
"""
from fractions import Fraction
from math import gcd, isqrt
from . import terms as T
from .terms import Sym, Unsupported

BITS = 16
FIELD = (1 << BITS) - 1
MAXTERMS = 400000


class TooBig(Exception):
    pass


class Frac:
    __slots__ = ("num", "den", "fac")

    def __init__(self, num, den=1, fac=None):
        self.num, self.den, self.fac = num, den, fac or {}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
        if len(r) > MAXTERMS:
            raise TooBig()
    return {m: c for m, c in r.items() if c}


def exps(m):
    out = {}
    i = 0
    while m:
        e = m & FIELD
        if e:
            out[i] = e
        m >>= BITS
        i += 1
    return out


class Atom:
    __slots__ = ("idx", "kind", "payload", "name", "sign", "deg", "rel", "term")

    def __init__(self, idx, kind, payload, name, sign=None, term=None):
        self.idx, self.kind, self.payload, self.name, self.sign = idx, kind, payload, name, sign
        self.deg, self.rel, self.term = None, None, term


class Alg:
    def __init__(self, sign_oracle=None):
        self.atoms = []
        self.bykey = {}
        self.facs = []          # polys
        self.fackey = {}
        self.fac_atom = {}      # fid -> atom idx if monomial
        self.mask2 = 0          # reducible degree 2 atoms
        self.redhi = []         # (idx, deg) for deg>2
        self.memo = {}
        self.sqrt_memo = {}
        self.sign_memo = {}
        self.fl_memo = {}
        self.angles = {}        # base key -> (s idx, c idx)
        self.angle_list = []    # (frac base, sidx, cidx)
        self.principal = []     # (Frac value, Frac cos, Frac sin)
        self.kinds = {}         # var name -> kind  (set by ctx): real,pos,nonneg,polar,azimuth,...
        self.sign_oracle = sign_oracle
        self.apps = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, key, kind, payload=None, name="", sign=None, rel=None, deg=None, term=None):
        a = self.bykey.get(key)
        if a is not None:
            return a
        a = Atom(len(self.atoms), kind, payload, name, sign, term)
        self.atoms.append(a)
        self.bykey[key] = a
        if rel is not None:
            a.rel, a.deg = rel, deg
            if deg == 2:
                self.mask2 |= (FIELD & ~1) << (BITS * a.idx)
            else:
                self.redhi.append(a.idx)
        return a

    def mono(self, idx, e=1):
        return e << (BITS * idx)

    def P(self, idx):
        return {self.mono(idx): 1}

    # ---------------------------------------------------------------- polynomials modulo relations
    def reduce(self, p):
        if not self.mask2 and not self.redhi:
            return p
        mask2, redhi = self.mask2, self.redhi
        bad = None
        for m in p:
            if m & mask2:
                bad = True
                break
            if redhi:
                for i in redhi:
                    if ((m >> (BITS * i)) & FIELD) >= self.atoms[i].deg:
                        bad = True
                        break
                if bad:
                    break
        if not bad:
            return p
        out = {}
        groups = {}
        for m, c in p.items():
            hit = []
            if m & mask2:
                mm = (m & mask2)
                i = 0
                while mm:
                    e = mm & FIELD
                    if e:
                        hit.append((i, e >> 1))
                    mm >>= BITS
                    i += 1
            for i in redhi:
                q = ((m >> (BITS * i)) & FIELD) // self.atoms[i].deg
                if q:
                    hit.append((i, q))
            if not hit:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
            else:
                for i, q in hit:
                    m -= self.mono(i, q * self.atoms[i].deg)
                g = groups.setdefault(tuple(hit), {})
                g[m] = g.get(m, 0) + c
        for hit, g in groups.items():
            rep = {0: 1}
            for i, q in hit:
                rep = self.reduce(pmul_raw(rep, self.relpow(i, q)))
            out = padd(out, self.reduce(pmul_raw(g, rep)))
        return {m: c for m, c in out.items() if c}

    def relpow(self, i, q):
        key = ("rp", i, q)
        r = self.fl_memo.get(key)
        if r is None:
            if q == 1:
                r = self.atoms[i].rel
            else:
                r = self.reduce(pmul_raw(self.relpow(i, q - 1), self.atoms[i].rel))
            self.fl_memo[key] = r
        return r

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1:
            (m, c), = a.items()
            if m == 0:
                return pscale(b, c)
        if len(b) == 1:
            (m, c), = b.items()
            if m == 0:
                return pscale(a, c)
        return self.reduce(pmul_raw(a, b))

    def ppow(self, a, n):
        r = {0: 1}
        while n:
            if n & 1:
                r = self.pmul(r, a)
            n >>= 1
            if n:
                a = self.pmul(a, a)
        return r

    def pdivexact(self, a, b, limit=200000):
        """exact polynomial division or None (as plain polynomials)"""
        if not a:
            return {}
        lb = max(b)
        cb = b[lb]
        if len(b) == 1:
            out = {}
            eb = exps(lb)
            for m, c in a.items():
                if c % cb:
                    return None
                for i, e in eb.items():
                    if ((m >> (BITS * i)) & FIELD) < e:
                        return None
                out[m - lb] = c // cb
            return out
        eb = exps(lb)
        rest = [(m, c) for m, c in b.items() if m != lb]
        import heapq
        a = dict(a)
        heap = [-m for m in a]
        heapq.heapify(heap)
        q = {}
        steps = 0
        while a:
            while True:
                m = -heap[0]
                if m in a:
                    break
                heapq.heappop(heap)
            c = a[m]
            if c % cb:
                return None
            for i, e in eb.items():
                if ((m >> (BITS * i)) & FIELD) < e:
                    return None
            qm, qc = m - lb, c // cb
            q[qm] = qc
            del a[m]
            heapq.heappop(heap)
            for m2, c2 in rest:
                mm = qm + m2
                v = a.get(mm)
                if v is None:
                    a[mm] = -qc * c2
                    heapq.heappush(heap, -mm)
                else:
                    v -= qc * c2
                    if v:
                        a[mm] = v
                    else:
                        del a[mm]
            steps += len(rest)
            if steps > limit:
                return None
        return q

    # ---------------------------------------------------------------- factors
    def factor_id(self, p):
        """p primitive, non-constant, leading coefficient positive"""
        key = tuple(sorted(p.items()))
        f = self.fackey.get(key)
        if f is None:
            f = len(self.facs)
            self.facs.append(p)
            self.fackey[key] = f
            if len(p) == 1:
                (m, _), = p.items()
                e = exps(m)
                if len(e) == 1 and list(e.values()) == [1]:
                    self.fac_atom[f] = list(e)[0]
        return f

    def split_poly(self, p, deep=True):
        """p (nonzero) -> (int content with sign, {fid: exp}) where fids are non-reducible atoms or polynomials"""
        g = pcontent(p)
        if p[max(p)] < 0:
            g = -g
        if g != 1:
            p = {m: c // g for m, c in p.items()}
        out = {}
        # monomial content
        it = iter(p)
        mc = exps(next(it))
        for m in it:
            if not mc:
                break
            for i in list(mc):
                e = (m >> (BITS * i)) & FIELD
                if e < mc[i]:
                    if e:
                        mc[i] = e
                    else:
                        del mc[i]
        if mc:
            mm = sum(self.mono(i, e) for i, e in mc.items())
            p = {m - mm: c for m, c in p.items()}
            for i, e in mc.items():
                f = self.factor_id(self.P(i))
                out[f] = out.get(f, 0) + e
        if len(p) == 1:
            return g, out
        # known factors
        for f in range(len(self.facs)):
            if f in self.fac_atom:
                continue
            q = self.facs[f]
            if len(q) > len(p) or max(q) > max(p):
                continue
            while len(p) > 1:
                r = self.pdivexact(p, q, 20000)
                if r is None:
                    break
                out[f] = out.get(f, 0) + 1
                p = r
        if len(p) == 1 and 0 in p:
            return g * p[0], out
        if deep:
            for q, e in self.factor_list(p):
                if len(q) == 1 and 0 in q:
                    g *= q[0] ** e
                    continue
                f = self.factor_id(q)
                out[f] = out.get(f, 0) + e
        else:
            f = self.factor_id(p)
            out[f] = out.get(f, 0) + 1
        return g, out

    def factor_list(self, p):
        key = tuple(sorted(p.items()))
        r = self.fl_memo.get(key)
        if r is not None:
            return r
        r = [(p, 1)]
        if 1 < len(p) <= 60:
            vs = sorted({i for m in p for i in exps(m)})
            deg = max(sum(exps(m).values()) for m in p)
            if deg > 1 and len(vs) <= 14:
                from sympy.polys.rings import ring
                from sympy import ZZ
                R = ring(["v%d" % i for i in vs], ZZ)[0]
                pos = {i: k for k, i in enumerate(vs)}
                d = {}
                for m, c in p.items():
                    e = [0] * len(vs)
                    for i, x in exps(m).items():
                        e[pos[i]] = x
                    d[tuple(e)] = ZZ(c)
                try:
                    cont, fl = R.from_dict(d).factor_list()
                    r = []
                    k0 = int(cont)
                    for q, e in fl:
                        qq = {}
                        for mon, c in q.terms():
                            qq[sum(self.mono(vs[k], x) for k, x in enumerate(mon) if x)] = int(c)
                        if qq[max(qq)] < 0:
                            qq = {m: -c for m, c in qq.items()}
                            if e % 2:
                                k0 = -k0
                        r.append((qq, int(e)))
                    if k0 != 1:
                        r.append(({0: k0}, 1))
                except Exception:
                    r = [(p, 1)]
        # recombine (1-c)(1+c) -> 1-c^2 for cosines
        r = self._recombine(r)
        self.fl_memo[key] = r
        return r

    def _recombine(self, fl):
        fl = [[q, e] for q, e in fl]
        for a in self.atoms:
            if a.kind != "cos":
                continue
            m = self.mono(a.idx)
            pl, mi = {0: 1, m: 1}, {0: -1, m: 1}
            i1 = next((x for x in fl if x[0] == pl), None)
            i2 = next((x for x in fl if x[0] == mi), None)
            if i1 and i2:
                k = min(i1[1], i2[1])
                i1[1] -= k
                i2[1] -= k
                fl.append([{0: -1, 2 * m: 1}, k])
        return [(q, e) for q, e in fl if e]

    # ---------------------------------------------------------------- fractions
    def const(self, v):
        v = Fraction(v)
        return Frac({0: v.numerator} if v else {}, v.denominator)

    def norm(self, num, den, fac, deep=True):
        if not num:
            return Frac({})
        g = gcd(pcontent(num), den)
        if den < 0:
            g = -g
        if g != 1:
            num = {m: c // g for m, c in num.items()}
            den //= g
        if fac:
            fac = dict(fac)
            for f in list(fac):
                if not fac[f]:
                    del fac[f]
                    continue
                q = self.facs[f]
                if f in self.fac_atom:
                    i = self.fac_atom[f]
                    sh = BITS * i
                    e = min(((m >> sh) & FIELD) for m in num)
                    e = min(e, fac[f])
                    if e:
                        d = e << sh
                        num = {m - d: c for m, c in num.items()}
                        fac[f] -= e
                elif deep and len(num) <= 4000:
                    while fac[f]:
                        if len(q) > len(num) and len(num) > 0 and len(num) < 2:
                            break
                        r = self.pdivexact(num, q, 60000)
                        if r is None:
                            r = self.pdiv_conj(num, f)
                        if r is None:
                            break
                        num = r
                        fac[f] -= 1
                if not fac[f]:
                    del fac[f]
        return Frac(num, den, fac)

    def pdiv_conj(self, num, f):
        """division by a factor u + v*w modulo w^2 = rel, by its conjugate"""
        q = self.facs[f]
        if len(num) * len(q) > 4000 or len(q) > 40:
            return None
        key = ("conj", f)
        c = self.fl_memo.get(key)
        if c is None:
            c = False
            ws = [i for i in {i for m in q for i in exps(m)} if self.atoms[i].deg == 2 and self.atoms[i].kind == "sqrt"]
            if ws and len(q) > 1:
                i = max(ws)
                sh = BITS * i
                conj = {m: (-x if (m >> sh) & FIELD else x) for m, x in q.items()}
                n = self.pmul(q, conj)
                if n:
                    c = (conj, n)
            self.fl_memo[key] = c
        if not c:
            return None
        try:
            r = self.pdivexact(self.pmul(num, c[0]), c[1], 60000)
            return r if r is not None and self.pmul(r, q) == num else None
        except TooBig:
            return None

    def facpoly(self, fac):
        r = {0: 1}
        for f, e in fac.items():
            r = self.pmul(r, self.ppow(self.facs[f], e))
        return r

    def fadd(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.fac == b.fac:
            L = a.den * b.den // gcd(a.den, b.den)
            num = padd(pscale(a.num, L // a.den), pscale(b.num, L // b.den))
            return self.norm(num, L, a.fac)
        fac = dict(a.fac)
        for f, e in b.fac.items():
            if fac.get(f, 0) < e:
                fac[f] = e
        ma = {f: e - a.fac.get(f, 0) for f, e in fac.items() if e > a.fac.get(f, 0)}
        mb = {f: e - b.fac.get(f, 0) for f, e in fac.items() if e > b.fac.get(f, 0)}
        L = a.den * b.den // gcd(a.den, b.den)
        na = self.pmul(a.num, self.facpoly(ma)) if ma else a.num
        nb = self.pmul(b.num, self.facpoly(mb)) if mb else b.num
        num = padd(pscale(na, L // a.den), pscale(nb, L // b.den))
        return self.norm(num, L, fac)

    def fneg(self, a):
        return Frac({m: -c for m, c in a.num.items()}, a.den, a.fac)

    def fsub(self, a, b):
        return self.fadd(a, self.fneg(b))

    def fmul(self, a, b):
        if not a.num or not b.num:
            return Frac({})
        if not a.fac and not b.fac:
            num = self.pmul(a.num, b.num)
            return self.norm(num, a.den * b.den, None)
        # cross-cancel
        a2 = self.norm(a.num, a.den, b.fac) if b.fac else a
        b2 = self.norm(b.num, b.den, a.fac) if a.fac else b
        # a2.fac: remaining of b.fac ; b2.fac: remaining of a.fac
        fac = dict(b2.fac) if a.fac else {}
        for f, e in (a2.fac if b.fac else {}).items():
            fac[f] = fac.get(f, 0) + e
        num = self.pmul(a2.num, b2.num)
        return self.norm(num, a2.den * b2.den, fac, deep=len(num) <= 300)

    def finv(self, a):
        if not a.num:
            raise ZeroDivisionError("division by an expression that is identically zero")
        g, fac = self.split_poly(a.num)
        num = pscale(self.facpoly(a.fac), a.den)
        # rationalise reducible atoms
        out = {}
        for f, e in fac.items():
            i = self.fac_atom.get(f)
            if i is not None and self.atoms[i].rel is not None:
                d = self.atoms[i].deg
                k = -(-e // d)          # ceil
                r = k * d - e
                if r:
                    num = self.pmul(num, {self.mono(i, r): 1})
                g2, fac2 = self.split_poly(self.atoms[i].rel)
                g *= g2 ** k
                for f2, e2 in fac2.items():
                    i2 = self.fac_atom.get(f2)
                    out[f2] = out.get(f2, 0) + e2 * k
            else:
                out[f] = out.get(f, 0) + e
        # reducible atoms may reappear through relations (nested roots): repeat
        again = [f for f in out if self.fac_atom.get(f) is not None and self.atoms[self.fac_atom[f]].rel is not None]
        res = self.norm(pscale(num, 1 if g > 0 else -1), abs(g), {f: e for f, e in out.items() if f not in again})
        for f in again:
            x = self.finv(Frac(self.facs[f]))
            for _ in range(out[f]):
                res = self.fmul(res, x)
        return res

    def fdiv(self, a, b):
        return self.fmul(a, self.finv(b))

    def fpow(self, a, n):
        if n < 0:
            return self.fpow(self.finv(a), -n)
        r = self.const(1)
        while n:
            if n & 1:
                r = self.fmul(r, a)
            n >>= 1
            if n:
                a = self.fmul(a, a)
        return r

    def fzero(self, a):
        return not a.num

    def fequal(self, a, b):
        return not self.fsub(a, b).num

    # ---------------------------------------------------------------- signs
    def syn_sign(self, p):
        """syntactic sign of polynomial: +1 / -1 when every monomial has the same known strict/weak sign, else None"""
        if not p:
            return 0
        s = None
        for m, c in p.items():
            v = 1 if c > 0 else -1
            for i, e in exps(m).items():
                if e % 2:
                    sg = self.atoms[i].sign
                    if sg not in (1, -1):
                        return None
                    v *= sg
            if s is None:
                s = v
            elif s != v:
                return None
        return s

    def sign_poly(self, p):
        """+1: p>=0 known, -1: p<=0 known, None"""
        s = self.syn_sign(p)
        if s is not None:
            return s
        key = tuple(sorted(p.items()))
        if key in self.sign_memo:
            return self.sign_memo[key]
        s = None
        for a in self.atoms:
            if a.kind == "sqrt" and a.rel is not None and len(a.rel) == len(p):
                # radicands of real square roots are nonnegative
                if a.rel == p:
                    s = 1
                elif all(p.get(m) == -c for m, c in a.rel.items()):
                    s = -1
            if a.kind == "cos":
                m = self.mono(a.idx)
                if p == {0: -1, 2 * m: 1}:
                    s = -1
                elif p == {0: 1, 2 * m: -1}:
                    s = 1
                elif p == {0: 1, m: 1}:
                    s = 1
                elif p == {0: -1, m: 1}:
                    s = -1
        if s is None:
            fl = self.factor_list(p)
            if len(fl) > 1 or (fl and fl[0][1] > 1):
                s = 1
                for q, e in fl:
                    if len(q) == 1 and 0 in q:
                        if q[0] ** e < 0:
                            s = -s
                        continue
                    if e % 2 == 0:
                        continue
                    t = self.sign_poly(q)
                    if t is None:
                        s = None
                        break
                    s *= t
        if s is None:
            s = self.sign_linear(p)
        if s is None and self.sign_oracle is not None:
            s = self.sign_oracle(self, p)
        self.sign_memo[key] = s
        return s

    def sign_linear(self, p):
        """sign of u + v*w for a square root w, from the signs of v and of (v w)^2 - u^2"""
        depth = getattr(self, "_sl", 0)
        if depth > 2 or len(p) > 80:
            return None
        ws = [i for i in {i for m in p for i in exps(m)} if self.atoms[i].kind == "sqrt"]
        if not ws:
            return None
        self._sl = depth + 1
        oracle, self.sign_oracle = self.sign_oracle, None
        try:
            for i in sorted(ws, reverse=True)[:3]:
                sh = BITS * i
                if self.atoms[i].deg != 2:
                    continue
                v = {m - (1 << sh): c for m, c in p.items() if (m >> sh) & FIELD}
                u = {m: c for m, c in p.items() if not (m >> sh) & FIELD}
                if not u:
                    continue
                sv, su = self.sign_poly(v), self.sign_poly(u)
                if sv is None and su is None:
                    continue
                if sv == su:
                    return sv
                try:
                    d = padd(self.pmul(self.pmul(v, v), self.atoms[i].rel), {m: -c for m, c in self.pmul(u, u).items()})
                except TooBig:
                    continue
                sd = self.sign_poly(d) if d else 0
                if sd is None:
                    continue
                if sd >= 0 and sv is not None:
                    return sv
                if sd <= 0 and su is not None:
                    return su
            return None
        finally:
            self._sl = depth
            self.sign_oracle = oracle
            # signs missed without the oracle may be found with it
            self.sign_memo = {k: v for k, v in self.sign_memo.items() if v is not None}

    def sign_frac(self, a):
        s = self.sign_poly(a.num)
        if s is None:
            return None
        for f, e in a.fac.items():
            if e % 2:
                t = self.sign_poly(self.facs[f])
                if t is None:
                    return None
                s *= t
        return s

    # ---------------------------------------------------------------- square roots and roots
    def fabs_poly(self, p):
        """|p| as a polynomial"""
        s = self.sign_poly(p)
        if s is not None:
            return p if s >= 0 else {m: -c for m, c in p.items()}
        if p[max(p)] < 0:
            p = {m: -c for m, c in p.items()}
        key = ("abs", tuple(sorted(p.items())))
        a = self.atom(key, "sqrt", None, "|.|", 1, rel=self.pmul(p, p), deg=2)
        a.payload = a.rel
        return self.P(a.idx)

    def int_root(self, k, q):
        """positive int k -> (outside int, poly for k^(1/q) rest)"""
        out, rest = 1, {0: 1}
        n = k
        d = 2
        fs = {}
        while d * d <= n and d < 5000:
            while n % d == 0:
                fs[d] = fs.get(d, 0) + 1
                n //= d
            d += 1
        if n > 1:
            if q == 2 and isqrt(n) ** 2 == n:
                fs[isqrt(n)] = fs.get(isqrt(n), 0) + 2
            else:
                fs[n] = fs.get(n, 0) + 1
        for pr, e in fs.items():
            out *= pr ** (e // q)
            if e % q:
                a = self.root_atom({0: pr}, q)
                rest = self.pmul(rest, {self.mono(a.idx, e % q): 1})
        return out, rest

    def root_atom(self, p, q):
        key = ("root", q, tuple(sorted(p.items())))
        a = self.bykey.get(key)
        if a is None:
            a = self.atom(key, "sqrt" if q == 2 else "root", p, "root%d" % q, 1, rel=p, deg=q)
            self.sign_memo = {k: v for k, v in self.sign_memo.items() if v is not None}
        return a

    def froot(self, a, q):
        """principal real q-th root of a nonnegative Frac"""
        if not a.num:
            return a
        g, fac = self.split_poly(a.num)
        for f, e in a.fac.items():
            fac[f] = fac.get(f, 0) - e
        cn = Fraction(g, a.den)
        # expand even powers of reducible degree-2 atoms?  (never present: reduced)
        num, den = {0: 1}, {0: 1}
        inside = []
        for f, e in sorted(fac.items()):
            if not e:
                continue
            p = self.facs[f]
            qe, re = divmod(e, q)
            if p[max(p)] > 0 and len(p) == 2 and q == 2:
                pass
            if qe:
                # (p^qe)^q -> |p|^qe for even q
                sp = self.sqrt_sq(p) if q == 2 else None
                if sp is not None:
                    ap = self.pmul(sp, sp)
                else:
                    ap = self.fabs_poly(p) if q % 2 == 0 else p
                if qe > 0:
                    num = self.pmul(num, self.ppow(ap, qe))
                else:
                    den = self.pmul(den, self.ppow(ap, -qe))
            if re:
                inside.append((f, re))
        sgn = 1 if cn > 0 else -1
        known = []
        extra = self.const(1)
        unknown = {0: 1}
        for f, e in inside:
            p = self.facs[f]
            s = self.sign_poly(p)
            if s is None:
                unknown = self.pmul(unknown, self.ppow(p, e))
            elif s < 0 and q % 2 == 0:
                if e % 2:
                    sgn = -sgn
                known.append(({m: -c for m, c in p.items()}, e))
            else:
                known.append((p, e))
        if unknown == {0: 1} and sgn < 0 and q % 2 == 0:
            raise T.EvalError("root of a negative quantity")
        if sgn < 0:
            unknown = {m: -c for m, c in unknown.items()}
        k = abs(cn)
        # k = n/d -> root(n * d^(q-1)) / d
        outk, restk = self.int_root(k.numerator * k.denominator ** (q - 1), q)
        num = pscale(self.pmul(num, restk), outk)
        denk = k.denominator
        for p, e in known:
            # radicands whose square root is a sine
            sp = self.sqrt_sq(p) if q == 2 else None
            if sp is not None:
                num = self.pmul(num, self.ppow(sp, e))
                continue
            rel = self.root_relation(p) if q == 2 else None
            if rel is not None:
                extra = self.fmul(extra, self.fpow(rel, e))
                continue
            at = self.root_atom(p, q)
            num = self.pmul(num, {self.mono(at.idx, e): 1})
        if unknown != {0: 1}:
            rel = self.root_relation(unknown) if q == 2 else None
            if rel is not None:
                extra = self.fmul(extra, rel)
            else:
                at = self.root_atom(unknown, q)
                num = self.pmul(num, self.P(at.idx))
        r = self.norm(num, denk, None)
        if den != {0: 1}:
            r = self.fdiv(r, Frac(den))
        return self.fmul(r, extra)

    def root_relation(self, p):
        """sqrt(p) as a product/quotient of existing square-root atoms, if p*q = k*r1*r2 for existing radicands"""
        if ("root", 2, tuple(sorted(p.items()))) in self.bykey or len(p) > 200:
            return None
        at = [a for a in self.atoms if a.kind == "sqrt" and a.name == "root2" and not (len(a.rel) == 1 and 0 in a.rel)]
        if len(at) > 10:
            at = at[-10:]

        def prim(x):
            g = pcontent(x)
            return g, tuple(sorted((m, c // g) for m, c in x.items()))
        prods = {}
        one = [(1, None)]
        for i, a in enumerate(at):
            for b in [None] + at[i + 1:]:
                pr = a.rel if b is None else self.pmul(a.rel, b.rel)
                if not pr:
                    continue
                g, k = prim(pr)
                prods.setdefault(k, (g, a, b))
        for qa in [None] + at:
            pq = p if qa is None else self.pmul(p, qa.rel)
            if not pq:
                continue
            g, k = prim(pq)
            hit = prods.get(k)
            if hit is None or qa is None and hit[2] is None or qa is not None and qa in hit[1:]:
                continue
            g2, a, b = hit
            # p*q/g == a*b/g2  =>  sqrt(p) = sqrt(g/g2) sqrt(a) sqrt(b) / sqrt(q)
            r = self.fsqrt(self.const(Fraction(g, g2)))
            r = self.fmul(r, Frac(self.P(a.idx)))
            if b is not None:
                r = self.fmul(r, Frac(self.P(b.idx)))
            if qa is not None:
                r = self.fdiv(r, Frac(self.P(qa.idx)))
            return r
        # p*q = k * squares * existing radicands, found by factoring
        for qa in at:
            try:
                pq = self.pmul(p, qa.rel)
            except TooBig:
                continue
            if not pq or len(pq) > 400:
                continue
            g, fac = self.split_poly(pq)
            fac = [(self.facs[f], e) for f, e in fac.items()]
            for j, (fp, e) in enumerate(fac):
                if e % 2 and self.sign_poly(fp) == -1:
                    g = -g
                    fac[j] = ({m: -c for m, c in fp.items()}, e)
            if g < 0:
                continue
            r = self.fsqrt(self.const(g))
            for fp, e in fac:
                if e % 2 == 0:
                    r = self.fmul(r, Frac(self.ppow(self.fabs_poly(fp), e // 2)))
                    continue
                sp = self.sqrt_sq(fp) if self.sign_poly(fp) in (0, 1) else None
                hit = self.bykey.get(("root", 2, tuple(sorted(fp.items()))))
                if sp is not None:
                    r = self.fmul(r, Frac(self.ppow(sp, e)))
                elif hit is not None and hit is not qa:
                    r = self.fmul(r, Frac(self.ppow(self.P(hit.idx), e)))
                else:
                    r = None
                    break
            if r is not None:
                return self.fdiv(r, Frac(self.P(qa.idx)))
        return None

    def sqrt_sq(self, p):
        """if +-p = 1-c^2 return |s| polynomial (square root of |p|)"""
        for a in self.atoms:
            if a.kind == "cos":
                m = self.mono(a.idx)
                if p == {0: -1, 2 * m: 1} or p == {0: 1, 2 * m: -1}:
                    return self.fabs_poly(self.P(a.payload))
        return None

    def fsqrt(self, a):
        key = (tuple(sorted(a.num.items())), a.den, tuple(sorted(a.fac.items())))
        r = self.sqrt_memo.get(key)
        if r is None:
            r = self.froot(a, 2)
            self.sqrt_memo[key] = r
        return r

    # ---------------------------------------------------------------- transcendental
    def linear_parts(self, a):
        """Frac -> list of (Fraction coeff, unit Frac key, unit Frac) with a = sum coeff*unit"""
        out = []
        for m, c in sorted(a.num.items()):
            unit = self.norm({m: 1}, 1, a.fac)
            key = (tuple(sorted(unit.num.items())), unit.den, tuple(sorted(unit.fac.items())))
            out.append((Fraction(c, a.den), key, unit))
        return out

    def trig(self, a):
        """(sin, cos) of Frac a"""
        for val, co, si in self.principal:
            if self.same(val, a):
                return si, co
        s, c = self.const(0), self.const(1)
        lp = self.linear_parts(a)
        if len(a.fac) and len(a.num) > 1:
            # non-polynomial argument: treat as one unit
            g = pcontent(a.num)
            if a.num[max(a.num)] < 0:
                g = -g
            unit = Frac({m: cc // g for m, cc in a.num.items()}, 1, a.fac)
            key = (tuple(sorted(unit.num.items())), 1, tuple(sorted(unit.fac.items())))
            lp = [(Fraction(g, a.den), key, unit)]
        for q, key, unit in lp:
            if self.is_pi(unit):
                s1, c1 = self.trig_pi(q)
            else:
                s1, c1 = self.trig_unit(q, key, unit)
            s, c = (self.fadd(self.fmul(s, c1), self.fmul(c, s1)),
                    self.fsub(self.fmul(c, c1), self.fmul(s, s1)))
        return s, c

    def is_pi(self, unit):
        a = self.bykey.get(("var", "pi"))
        return a is not None and not unit.fac and unit.num == {self.mono(a.idx): 1}

    def trig_pi(self, q):
        q = q % 2
        half = Fraction(1, 2)
        sq2 = lambda: self.fmul(self.const(half), self.fsqrt(self.const(2)))
        sq3 = lambda: self.fmul(self.const(half), self.fsqrt(self.const(3)))
        tab = {0: lambda: (self.const(0), self.const(1)),
               Fraction(1, 6): lambda: (self.const(half), sq3()),
               Fraction(1, 4): lambda: (sq2(), sq2()),
               Fraction(1, 3): lambda: (sq3(), self.const(half)),
               half: lambda: (self.const(1), self.const(0))}
        n = 0
        while q >= half:
            q -= half
            n += 1
        if q in tab:
            s, c = tab[q]()
        else:
            pi = self.bykey[("var", "pi")]
            unit = Frac(self.P(pi.idx))
            s, c = self.trig_unit(q, ("piu",), unit)
        for _ in range(n):
            s, c = c, self.fneg(s)
        return s, c

    def trig_unit(self, q, key, unit):
        # principal angle with this value?
        for val, co, si in self.principal:
            if self.same(val, unit):
                base_s, base_c = si, co
                if q.denominator == 1:
                    return self.trig_mult(base_s, base_c, q.numerator)
        d = q.denominator
        k = ("ang", key, d)
        ent = self.angles.get(k)
        if ent is None:
            neg = False
            ca = self.atom(("cos",) + k, "cos", None, "cos", None)
            sa = self.atom(("sin",) + k, "sin", ca.idx, "sin", None,
                           rel={0: 1, self.mono(ca.idx, 2): -1}, deg=2)
            ca.payload = sa.idx
            ent = (sa.idx, ca.idx, self.fmul(unit, self.const(Fraction(1, d))))
            self.angles[k] = ent
            kind = self.unit_kind(unit) if d == 1 else None
            if kind == "polar":
                sa.sign = 1
            if kind in ("polar", "azimuth"):
                self.principal.append((unit, Frac(self.P(ca.idx)), Frac(self.P(sa.idx))))
        return self.trig_mult(Frac(self.P(ent[0])), Frac(self.P(ent[1])), q.numerator)

    def unit_kind(self, unit):
        if unit.fac or len(unit.num) != 1:
            return None
        (m, c), = unit.num.items()
        e = exps(m)
        if len(e) == 1 and list(e.values()) == [1]:
            a = self.atoms[list(e)[0]]
            if a.kind == "var":
                return self.kinds.get(a.name)
        return None

    def trig_mult(self, s, c, n):
        if n < 0:
            s, c = self.trig_mult(s, c, -n)
            return self.fneg(s), c
        rs, rc = self.const(0), self.const(1)
        while n:
            if n & 1:
                rs, rc = (self.fadd(self.fmul(rs, c), self.fmul(rc, s)),
                          self.fsub(self.fmul(rc, c), self.fmul(rs, s)))
            n >>= 1
            if n:
                s, c = self.fmul(self.const(2), self.fmul(s, c)), self.fsub(self.fmul(c, c), self.fmul(s, s))
        return rs, rc

    def same(self, a, b):
        if a.num == b.num and a.den == b.den and a.fac == b.fac:
            return True
        if a.fac == b.fac:
            return False if a.den == b.den or True and self.fsub(a, b).num else True
        return not self.fsub(a, b).num

    def ensure_angles(self):
        """principal variables (polar/azimuth) get sin/cos atoms before inverse functions look for them"""
        for name, kind in self.kinds.items():
            if kind in ("polar", "azimuth"):
                a = self.bykey.get(("var", name))
                if a is not None:
                    self.trig(Frac(self.P(a.idx)))

    def inverse_angle(self, c, s, what, term):
        """principal angle with the given cosine and sine"""
        self.ensure_angles()
        for val, co, si in self.principal:
            if self.same(co, c) and self.same(si, s):
                return val
        # constants
        if not c.fac and not s.fac and set(c.num) <= {0} and set(s.num) <= {0}:
            cv = Fraction(c.num.get(0, 0), c.den)
            sv = Fraction(s.num.get(0, 0), s.den)
            tab = {(1, 0): Fraction(0), (0, 1): Fraction(1, 2), (-1, 0): Fraction(1), (0, -1): Fraction(-1, 2)}
            if (cv, sv) in tab:
                return self.fmul(self.const(tab[(cv, sv)]), self.nf(T.PI))
        a = self.atom(("inv", what, len(self.principal), term.id), "angle", (c, s), what, None, term=term)
        val = Frac(self.P(a.idx))
        self.principal.append((val, c, s))
        return val

    def fexp(self, a):
        r = self.const(1)
        for q, key, unit in self.linear_parts(a):
            d = q.denominator
            at = self.atom(("exp", key, d), "exp", self.fmul(unit, self.const(Fraction(1, d))), "exp", 1)
            e = Frac(self.P(at.idx))
            r = self.fmul(r, self.fpow(e, q.numerator))
        return r

    def opaque(self, kind, args, name, sign=None, term=None):
        """atom for an uninterpreted function of Frac args, matched up to provable equality of args"""
        lst = self.apps.setdefault((kind, name), [])
        for av, at in lst:
            if len(av) == len(args) and all(self.same(x, y) for x, y in zip(av, args)):
                return Frac(self.P(at.idx))
        at = self.atom((kind, name, len(lst)), kind, args, str(name), sign, term=term)
        lst.append((args, at))
        return Frac(self.P(at.idx))

    # ---------------------------------------------------------------- terms -> normal form
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        memo = self.memo
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            todo = [a for a in n.args if isinstance(a, Sym) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[n.id] = self._nf1(n)
        return memo[t.id]

    def _nf1(self, n):
        op = n.op
        g = lambda i: self.memo[n.args[i].id]
        if op == "const":
            return self.const(n.args[0])
        if op == "var":
            name = n.args[0]
            kind = self.kinds.get(name)
            sign = 1 if name == "pi" or kind in ("pos", "nonneg", "polar") else (-1 if kind == "neg" else None)
            a = self.atom(("var", name), "var", None, name, sign, term=n)
            return Frac(self.P(a.idx))
        if op == "add":
            return self.fadd(g(0), g(1))
        if op == "neg":
            return self.fneg(g(0))
        if op == "mul":
            return self.fmul(g(0), g(1))
        if op == "div":
            return self.fdiv(g(0), g(1))
        if op == "pow":
            return self.fpow(g(0), n.args[1])
        if op == "rpow":
            e = n.args[1]
            ip = e.numerator // e.denominator
            fr = e - ip
            r = self.froot(g(0), e.denominator)
            return self.fpow(r, e.numerator)
        if op == "gpow":
            b, e = g(0), g(1)
            # split integer constant part of the exponent
            k = 0
            if not e.fac and 0 in e.num:
                k = e.num[0] // e.den
            e2 = self.fsub(e, self.const(k)) if k else e
            r = self.const(1)
            if e2.num:
                hook, Sym.on_domain = Sym.on_domain, None
                try:
                    lg = T.fn("log", n.args[0])
                finally:
                    Sym.on_domain = hook
                r = self.fexp(self.fmul(e2, self.nf(lg)))
            return self.fmul(r, self.fpow(b, k)) if k else r
        if op == "app":
            name, ds, args = T.app_parts(n)
            return self.opaque("app", tuple(self.memo[a.id] for a in args), (name, ds), None, term=n)
        name = n.args[0]
        if name == "sin":
            return self.trig(g(1))[0]
        if name == "cos":
            return self.trig(g(1))[1]
        if name == "sqrt":
            return self.fsqrt(g(1))
        if name == "exp":
            return self.fexp(g(1))
        if name == "trunc":
            return self.opaque("trunc", (g(1),), "trunc", None, term=n)
        if name == "log":
            return self.opaque("log", (g(1),), "log", None, term=n)
        if name == "atan2":
            y, x = g(1), g(2)
            self.ensure_angles()
            h = self.fsqrt(self.fadd(self.fmul(x, x), self.fmul(y, y)))
            if not h.num:
                raise ZeroDivisionError("atan2(0,0)")
            hi = self.finv(h)
            return self.inverse_angle(self.fmul(x, hi), self.fmul(y, hi), "atan2", n)
        if name == "acos":
            self.ensure_angles()
            u = g(1)
            s = self.fsqrt(self.fsub(self.const(1), self.fmul(u, u)))
            return self.inverse_angle(u, s, "acos", n)
        if name == "asin":
            self.ensure_angles()
            u = g(1)
            c = self.fsqrt(self.fsub(self.const(1), self.fmul(u, u)))
            return self.inverse_angle(c, u, "asin", n)
        raise Unsupported("normal form of " + op + " " + str(name))

    def zero(self, t):
        return not self.nf(t).num
