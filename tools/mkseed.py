"""Builds and confirms a planted bug in a scratch copy:  mkseed.py SPEC.py [ids…]
SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old, new)…], demo=python text, needs, what)].
Confirmed: the patch applies, stable tests pass with it, the demo passes without and fails with it."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONPATH=W + "/src", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO = '#!/bin/bash\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    spec, only = sys.argv[1], sys.argv[2:]
    seeds = runpy.run_path(spec)["SEEDS"]
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in seeds:
        if only and s["id"] not in only:
            continue
        sh(["git", "-C", W, "checkout", "--", "."])
        demo = s["demo"].strip() + "\n"
        open("/tmp/seedwork/demo.py", "w").write(demo)
        r0 = sh([PY, "/tmp/seedwork/demo.py"], cwd=W, env=ENV, timeout=280)
        if r0.returncode != 0:
            print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-500:], r0.stderr[-1500:])
            continue
        ok = True
        for e in s["edits"]:
            f, old, new = (s["file"],) + e if len(e) == 2 else e
            p = os.path.join(W, f)
            t = open(p, newline="").read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), "times:", old[:80])
                ok = False
                break
            open(p, "w", newline="").write(t.replace(old, new))
        if not ok:
            continue
        r1 = sh([PY, "/tmp/seedwork/demo.py"], cwd=W, env=ENV, timeout=280)
        if r1.returncode == 0:
            print(s["id"], "DEMO PASSES WITH PATCH")
            continue
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=/tmp/seedwork/j.xml"], cwd=W, env=ENV)
        sh(["/usr/bin/python3", "/opt/vp/results.py", "/tmp/seedwork/o.json", "junit:/tmp/seedwork/j.xml"])
        miss = stable - set(json.load(open("/tmp/seedwork/o.json"))["passed"])
        if miss:
            print(s["id"], "TESTS FAIL:", sorted(miss)[:4])
            continue
        d = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(d)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(demo)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(out + "/meta.json", "w"), indent=1)
        chk = sh(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
        print(s["id"], "OK" if chk.returncode == 0 else "PATCH DOES NOT APPLY " + chk.stderr, "| demo:", (r1.stderr.strip().splitlines() or [""])[-1][:120])
    shutil.rmtree(W, ignore_errors=True)


main()
