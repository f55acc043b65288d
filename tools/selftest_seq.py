"""self-test of the loop rule of engine/seq.py: right claims about loops over sequences of symbolic length, and wrong ones,
none of which may be proved.   /opt/venv/bin/python tools/selftest_seq.py"""
import os
import sys
import tempfile
import warnings
warnings.filterwarnings("ignore")
D = tempfile.mkdtemp()
os.makedirs(D + "/einsteinpy")
os.environ["VERIF_REPO_SRC"] = D
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
open(D + "/einsteinpy/__init__.py", "w").close()
CODE = '''
import numpy as np

def total(xs):
    s = 0
    for x in xs:
        s = s + 2
    return s

def running(xs):
    s = 0
    out = []
    for x in xs:
        s = s + x
        out.append(s)
    return out

def pos(xs):
    out = []
    for x in xs:
        if x > 0:
            out.append(x)
    return out

def both(xs):
    a, b = [], []
    for i, x in enumerate(xs):
        if x > 0:
            a.append(x)
            b.append(i)
        else:
            a.append(-x)
    return a, b

def late(xs):
    out = []
    flag = 0
    for x in xs:
        if flag == 1:
            out.append(x)
        else:
            out.append(-x)
        flag = 1
    return out

def late2(xs):
    out = []
    s = 0
    for i, x in enumerate(xs):
        if i == 5:
            s = 7
        out.append(x + s)
    return out

def alt(xs):
    out, s = [], 1
    for x in xs:
        out.append(s * x)
        s = -s
    return out

def nested(xs):
    out = []
    for x in xs:
        for y in xs:
            out.append(x + y)
    return out

class Box:
    def __init__(self):
        self.n, self.v, self.log = 0, 1, []

    def tick(self, x):
        self.n += 1
        self.v = self.v * x
        self.log.append(self.v)

def boxed(xs):
    b = Box()
    for x in xs:
        b.tick(x)
    return b

def shared(xs):
    b = Box()
    c = [b]
    for x in xs:
        c[0].n = c[0].n + 3
    return b

def memo(xs):
    d = {}
    out = []
    for x in xs:
        if "k" not in d:
            d["k"] = x
        out.append(d["k"])
    return out

def comp(xs):
    return [x * x for x in xs if x > 1]

def whil(n):
    i, out = 0, []
    while i < n:
        out.append(i * i)
        i += 1
    return out, i

def whil2(n):
    i = 0
    while i < n:
        i += 2
    return i

def aliased(xs):
    row = [0, 0]
    out = []
    for x in xs:
        row[0] = x
        out.append(row)
    return out

def lastx(xs):
    x = 0
    for x in xs:
        y = x
    return x

def dflt(xs, acc=[]):
    for x in xs:
        acc.append(x)
    return acc

def isf(xs):
    out = []
    for x in xs:
        f = lambda: x
        out.append(f() + 1)
    return out

def rev(xs):
    out = []
    for x in reversed(xs):
        out.append(x)
    return out

def sl(xs):
    return [a - b for a, b in zip(xs[1:], xs[:-1])]

def swap2(xs):
    a, b = 0, 1
    for x in xs:
        a, b = b, a
    return a

def clipmax(xs):
    m = 0
    for x in xs:
        if x > m:
            m = x
    return m

def hidden(xs):
    c = [Box()]
    for x in xs:
        c[0].n = c[0].n + 3
    return c[0].n

def hidden2(xs):
    d = {"b": Box()}
    for x in xs:
        d["b"].tick(x)
    return d["b"].n

def closure(xs):
    c = 0
    def up():
        nonlocal c
        c += 2
    for x in xs:
        up()
    return c

COUNT = 0
def glob(xs):
    global COUNT
    COUNT = 0
    def up():
        global COUNT
        COUNT += 2
    for x in xs:
        up()
    return COUNT

def bound(xs):
    out = []
    ap = out.append
    for x in xs:
        ap(x)
    return out

def itr(xs):
    it = iter(range(10))
    s = 0
    for x in xs:
        s = next(it)
    return s

def early(xs):
    for x in xs:
        if x > 3:
            return 1
    return 0

def brk(xs):
    s = 0
    for x in xs:
        if x > 3:
            break
        s = s + 1
    return s

def exc(xs):
    s = 0
    for x in xs:
        try:
            if x > 3:
                raise ValueError
            s = s + 1
        except ValueError:
            pass
    return s

def clsattr(xs):
    Box.shared = 0
    for x in xs:
        Box.shared = Box.shared + 1
    return Box.shared

def plus(xs):
    out = []
    for x in xs:
        out = out + [x]
    return out

def iadd(xs):
    out = []
    for x in xs:
        out += [x]
    return out

def ins(xs):
    out = []
    for x in xs:
        out.insert(0, x)
    return out

def setit(xs):
    out = [0, 0, 0]
    for i, x in enumerate(xs):
        out[1] = x
    return out

def dkt(xs):
    d = {}
    for i, x in enumerate(xs):
        d[i % 2] = x
    return len(d)

def prod(xs):
    out = []
    a = 1
    for i, x in enumerate(xs):
        a = a * (i + 1)
        out.append(a)
    return out

def readback(xs):
    out = [0]
    for x in xs:
        out.append(out[-1] + x)
    return out

def lenread(xs):
    out = []
    for x in xs:
        out.append(len(out))
    return out
'''
open(D + "/einsteinpy/zz.py", "w").write(CODE)
from engine import registry, runner, terms as T   # noqa
from engine.seq import Seq, gen                   # noqa
Z = "einsteinpy.zz:"
TESTS = []


def test(right, wrong, name):
    TESTS.append((name, right, wrong))


def setup(k):
    n = k.pos("n")
    k.assume(n >= 1)
    j = k.real("j", "nonneg")
    k.assume(j <= n - 1)
    return Seq(n, lambda i: T.app("x", [i])), n, j, lambda i: T.app("x", [T.lift_or_fail(i)])


def ln(r):
    return gen(r).n if gen(r) is not None else T.const(len(r))


def c_total(k, f, xs, n, j, x):
    r = f(xs)
    return {"2n": ("==", r, 2 * n)}, {"2n+1": ("==", r, 2 * n + 1), "2": ("==", r, T.const(2)), "n": ("==", r, n)}


def c_running(k, f, xs, n, j, x):
    r = f(xs)
    first = bool(T.mkbool("==", j))
    good = {"len": ("==", ln(r), n), "0": ("==", r[0], x(0))}
    if not first:
        loop = k.loops[-1]
        good["step"] = ("==", loop.unfold(r[j], j - 1), r[j - 1] + x(j))
    return good, {"self": ("==", r[j], x(j)), "const": ("==", r[j], r[0])} if not first else {}


def c_pos(k, f, xs, n, j, x):
    r = f(xs)
    m = ln(r)
    if m is T.ZERO:
        return {}, {"never empty": ("==", n, 0)}
    i = k.real("i", "nonneg")
    k.assume(i <= m - 1)
    v = gen(r).at(i)
    return {"pos": ("<", -v, 0), "m<=n": ("<=", m - n, 0)}, {"all": ("==", m, n), "in order": ("==", v, x(i)), "big": ("<", 1 - v, 0)}


def c_both(k, f, xs, n, j, x):
    a, b = f(xs)
    return {"a": ("==", ln(a), n), "abs": ("<=", -gen(a).at(j), 0)}, {"b": ("==", ln(b), n), "ident": ("==", gen(a).at(j), x(j)), "empty": ("==", ln(b), 0)}


def c_late(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"always": ("==", gen(r).at(j), x(j)), "never": ("==", gen(r).at(j), -x(j))}


def c_late2(k, f, xs, n, j, x):
    r = f(xs)
    good = {}
    if not bool(T.mkbool("==", j)):
        v = k.loops[-1].unfold(gen(r).at(j), j - 1)
        good = {"step": ("==", v, x(j) + (7 if bool(T.mkbool("==", j - 5)) else gen(r).at(j - 1) - x(j - 1)))}
    return good, {"plain": ("==", gen(r).at(j), x(j)), "seven": ("==", gen(r).at(j), x(j) + 7)}


def c_alt(k, f, xs, n, j, x):
    r = f(xs)
    return {"first": ("==", r[0], x(0))}, {"plain": ("==", gen(r).at(j), x(j)), "neg": ("==", gen(r).at(j), -x(j))}


def c_nested(k, f, xs, n, j, x):
    return {}, {"n": ("==", ln(f(xs)), n), "2n": ("==", ln(f(xs)), 2 * n)}


def c_boxed(k, f, xs, n, j, x):
    b = f(xs)
    first = bool(T.mkbool("==", j))
    good = {"n": ("==", b.n, n), "log": ("==", ln(b.log), n), "0": ("==", b.log[0], x(0))}
    if not first:
        good["step"] = ("==", k.loops[-1].unfold(gen(b.log).at(j), j - 1), gen(b.log).at(j - 1) * x(j))
    return good, {"n1": ("==", b.n, n + 1), "v": ("==", b.v, T.const(1))}


def c_shared(k, f, xs, n, j, x):
    return {"3n": ("==", f(xs).n, 3 * n)}, {"0": ("==", f(xs).n, 0), "3": ("==", f(xs).n, 3)}


def c_memo(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"each": ("==", gen(r).at(j), x(j))}


def c_comp(k, f, xs, n, j, x):
    r = f(xs)
    if ln(r) is T.ZERO:
        return {}, {}
    i = k.real("i", "nonneg")
    k.assume(i <= ln(r) - 1)
    return {"big": ("<", 1 - gen(r).at(i), 0)}, {"n": ("==", ln(r), n), "4": ("<", 4 - gen(r).at(i), 0)}


def c_whil(k, f, xs, n, j, x):
    r, i = f(n)
    return {"n": ("==", ln(r), n), "j": ("==", gen(r).at(j), j * j), "i": ("==", i, n)}, {"j+1": ("==", gen(r).at(j), (j + 1) * (j + 1)), "i+1": ("==", i, n + 1)}


def c_whil2(k, f, xs, n, j, x):
    r = f(n)
    return {">=n": ("<=", n - r, 0), "<n+2": ("<", r - n - 2, 0)}, {"n": ("==", r, n), "2n": ("==", r, 2 * n)}


def c_aliased(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"each": ("==", gen(r).at(j)[0], x(j))}


def c_lastx(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"first": ("==", r, x(0)), "zero": ("==", r, 0)}


def c_dflt(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"2n": ("==", ln(r), 2 * n)}


def c_isf(k, f, xs, n, j, x):
    r = f(xs)
    return {"x+1": ("==", gen(r).at(j), x(j) + 1)}, {"x": ("==", gen(r).at(j), x(j))}


def c_rev(k, f, xs, n, j, x):
    r = f(xs)
    return {"rev": ("==", gen(r).at(j), x(n - 1 - j))}, {"same": ("==", gen(r).at(j), x(j)), "off": ("==", gen(r).at(j), x(n - j))}


def c_sl(k, f, xs, n, j, x):
    k.assume(n >= 3)
    r = f(xs)
    k.assume(j <= n - 2)
    return {"len": ("==", ln(r), n - 1), "d": ("==", gen(r).at(j), x(j + 1) - x(j))}, {"n": ("==", ln(r), n), "neg": ("==", gen(r).at(j), x(j) - x(j + 1))}


def c_swap2(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"0": ("==", r, 0), "1": ("==", r, 1)}


def c_clipmax(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"0": ("==", r, 0), "first": ("==", r, x(0)), "last": ("==", r, x(n - 1))}


def number(*wrong):
    def c(k, f, xs, n, j, x):
        r = f(xs)
        return {}, {str(w): ("==", r, w) for w in wrong}
    return c


c_hidden = number(0, 3)
c_hidden2 = number(0, 1)
c_closure = number(0, 2)
c_glob = number(0, 2)
c_itr = number(0, 9)
c_early = number(0, 1)
c_brk = number(0, 1)
c_clsattr = number(0, 1)
c_dkt = number(0, 1, 2)


def c_exc(k, f, xs, n, j, x):
    return {}, {"n": ("==", f(xs), n), "0": ("==", f(xs), 0)}


def c_bound(k, f, xs, n, j, x):
    r = f(xs)
    return {"n": ("==", ln(r), n)}, {"0": ("==", ln(r), 0), "1": ("==", ln(r), 1)}


c_plus = c_iadd = c_bound


def c_ins(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"same": ("==", r[0], x(0))}


def c_setit(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"0": ("==", r[1], 0), "first": ("==", r[1], x(0))}


def c_prod(k, f, xs, n, j, x):
    r = f(xs)
    return {"0": ("==", r[0], T.ONE)}, {"1": ("==", gen(r).at(j), T.ONE), "j": ("==", gen(r).at(j), j + 1)}


def c_readback(k, f, xs, n, j, x):
    r = f(xs)
    return {"n": ("==", ln(r), n + 1)}, {"0": ("==", gen(r).at(j), 0), "x": ("==", gen(r).at(j + 1), x(j))}


def c_lenread(k, f, xs, n, j, x):
    r = f(xs)
    return {}, {"0": ("==", gen(r).at(j), 0)}


def main():
    bad = 0
    for name, fn in sorted((n[2:], g) for n, g in globals().items() if n.startswith("c_") and (len(sys.argv) < 2 or n[2:] in sys.argv)):
        for which in ("right", "wrong"):
            def body(k, fn=fn, name=name, which=which):
                xs, n, j, x = setup(k)
                good, wrong = fn(k, k.get(Z + name), xs, n, j, x)
                for label, (rel, a, b) in (good if which == "right" else wrong).items():
                    if rel == "==":
                        k.equal(label, a, b)
                    else:
                        k.true(label, T.mkbool(rel, T.lift_or_fail(a) - b))
            h = registry.Harness(name, body, (), [{}], [], 60, 1, "", "sym", False, "", generic=True)
            r = runner.job_sym(h, {}, [], 1, "quick")
            labels = {}
            for o in r["obligations"]:
                labels.setdefault(o["label"], []).append(o["status"])
            mine = {l: all(s == "proved" for s in ss) for l, ss in labels.items() if not l.startswith(("index in range", "loop ", "precondition"))}
            if os.environ.get("VERIF_VERBOSE"):
                for o in r["obligations"]:
                    if o["status"] != "proved":
                        print("   ", o["label"], o["status"], o["how"], o["note"][:300], o["env"])
            if which == "right":
                print("%-8s right: %s%s" % (name, " ".join("%s=%s" % (l, "ok" if v else "OPEN") for l, v in mine.items()), "  (" + r["undecided"][:90] + ")" if r["undecided"] else ""))
            else:
                proved = [l for l, v in mine.items() if v]
                if r["undecided"]:
                    proved = []
                print("%-8s wrong: %s %s" % ("", "refused" if r["undecided"] else "%d claims not proved" % (len(mine) - len(proved)), "(" + r["undecided"][:80] + ")" if r["undecided"] else ""))
                if proved:
                    bad += 1
                    print("  UNSOUND:", proved)
    print("unsound: %d" % bad)
    return bad


if __name__ == "__main__":
    import shutil
    try:
        rc = main()
    finally:
        shutil.rmtree(D)
    sys.exit(1 if rc else 0)
