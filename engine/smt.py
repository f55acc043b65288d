"""Z3 back end: nonlinear real arithmetic over the atoms of a normal form."""
import sys, time, threading
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from fractions import Fraction
from .alg import BITS, FIELD, exps, Alg, TooBig
from . import terms as T

PATIENCE = 1
STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


class Smt:
    def __init__(self, alg):
        self.alg = alg
        self.vars = {}

    def v(self, i):
        r = self.vars.get(i)
        if r is None:
            a = self.alg.atoms[i]
            r = self.vars[i] = z3.Real("x%d" % i)
        return r

    def poly(self, p, used):
        terms = []
        for m, c in p.items():
            t = z3.IntVal(c) if False else z3.RealVal(c)
            fs = []
            for i, e in exps(m).items():
                used.add(i)
                x = self.v(i)
                fs.extend([x] * e)
            if fs:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                terms.append(pr if c == 1 else t * pr)
            else:
                terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def frac_sign_expr(self, f, used):
        """polynomial with the same sign as the fraction (where defined)"""
        e = self.poly(f.num, used)
        for k, x in f.fac.items():
            if x % 2:
                p = self.alg.facs[k]
                if self.alg.syn_sign(p) == 1:
                    continue
                e = e * self.poly(p, used)
        return e

    def cond(self, c, used):
        if c is T.TRUE:
            return z3.BoolVal(True)
        if c is T.FALSE:
            return z3.BoolVal(False)
        if c.rel == "and":
            return z3.And(self.cond(c.a, used), self.cond(c.b, used))
        if c.rel == "or":
            return z3.Or(self.cond(c.a, used), self.cond(c.b, used))
        f = self.alg.nf(c.a)
        if c.rel == "==":
            return self.poly(f.num, used) == 0
        if c.rel == "!=":
            return self.poly(f.num, used) != 0
        e = self.frac_sign_expr(f, used)
        return e < 0 if c.rel == "<" else e <= 0

    def side(self, used):
        """defining constraints of the atoms used (transitively)"""
        out = []
        done = set()
        todo = list(used)
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            a = self.alg.atoms[i]
            x = self.v(i)
            new = set()
            if a.kind in ("sqrt", "root"):
                out.append(x >= 0)
                pw = x
                for _ in range(a.deg - 1):
                    pw = pw * x
                out.append(pw == self.poly(a.rel, new))
            elif a.kind in ("sin", "cos"):
                j = a.payload
                new.add(j)
                if a.kind == "sin":
                    out.append(x * x + self.v(j) * self.v(j) == 1)
                    out.append(x <= 1)
                    out.append(x >= -1)
                    if a.sign == 1:
                        out.append(x > 0)
                else:
                    out.append(x <= 1)
                    out.append(x >= -1)
            elif a.kind == "exp":
                out.append(x > 0)
            elif a.kind == "var":
                k = self.alg.kinds.get(a.name)
                if a.name == "pi":
                    out += [x > z3.RealVal("3.14159265358979"), x < z3.RealVal("3.14159265358980")]
                elif k == "pos":
                    out.append(x > 0)
                elif k == "nonneg":
                    out.append(x >= 0)
                elif k == "neg":
                    out.append(x < 0)
                elif k in ("polar", "azimuth"):
                    pi = self.alg.nf(T.PI)
                    pv = self.poly(pi.num, new)
                    if k == "polar":
                        out += [x > 0, x < pv]
                    else:
                        out += [x > -pv, x <= pv]
            elif a.kind == "angle":
                pi = self.alg.nf(T.PI)
                pv = self.poly(pi.num, new)
                lo = -pv
                out += [x > lo, x <= pv] if a.name == "atan2" else ([x >= 0, x <= pv] if a.name == "acos" else [x >= -pv, x <= pv])
                if a.name == "atan2":
                    # the sign of the angle is the sign of its sine
                    s = self.alg.sign_frac(a.payload[1])
                    if s == 1:
                        out.append(x >= 0)
                    else:
                        e = self.frac_sign_expr(a.payload[1], new)
                        out.append(z3.Implies(e >= 0, x >= 0))
                        out.append(z3.Implies(e < 0, x < 0))
            elif a.sign == 1:
                out.append(x > 0 if a.kind == "gpow" else x >= 0)
            todo.extend(new - done)
        used |= done
        return out

    def check(self, conds, extra=None, timeout=3000, want_model=False):
        """conds: list of SymBool (conjunction); extra: list of callables(used)->z3 expr"""
        t0 = time.time()
        timeout = timeout * PATIENCE
        used = set()
        s = z3.Solver()
        s.set("timeout", int(timeout))
        try:
            fs = [self.cond(c, used) for c in conds]
            fs += [e(used) for e in (extra or [])]
            n = -1
            fs += self.side(used)
        except (TooBig, T.Unsupported, ZeroDivisionError, T.EvalError):
            return "unknown", None
        for f in fs:
            s.add(f)
        timer = threading.Timer(timeout / 1000.0 * 1.5 + 1, z3.main_ctx().interrupt)
        timer.start()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            timer.cancel()
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0
        res = "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
        STATS[res] += 1
        m = None
        if res == "sat" and want_model:
            m = self.model(s.model(), used)
        return res, m

    def model(self, m, used):
        out = {}
        for i in used:
            v = m.eval(self.v(i), model_completion=True)
            try:
                if z3.is_rational_value(v):
                    x = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    out[i] = float(x)
                elif z3.is_algebraic_value(v):
                    a = v.approx(25)
                    out[i] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            except Exception:
                pass
        env = {}
        A = self.alg
        for i, x in out.items():
            a = A.atoms[i]
            if a.kind == "var":
                env[a.name] = x
        import math
        for k, (si, ci, base) in A.angles.items():
            if si in out and ci in out and not base.fac and len(base.num) == 1 and base.den == 1:
                (mm, c), = base.num.items()
                e = exps(mm)
                if c == 1 and len(e) == 1 and list(e.values()) == [1]:
                    a = A.atoms[list(e)[0]]
                    if a.kind == "var":
                        env[a.name] = math.atan2(out[si], out[ci])
        return env


def make_oracle(get_conds, timeout=800):
    """sign oracle for Alg using the current path condition"""
    busy = [False]

    def oracle(alg, p):
        if busy[0] or len(p) > 60:
            return None
        busy[0] = True
        try:
            smt = Smt(alg)
            conds = get_conds()
            r, _ = smt.check(conds, [lambda u: smt.poly(p, u) < 0], timeout)
            if r == "unsat":
                return 1
            r, _ = smt.check(conds, [lambda u: smt.poly(p, u) > 0], timeout)
            if r == "unsat":
                return -1
            return None
        finally:
            busy[0] = False
    return oracle
