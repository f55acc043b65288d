"""debug: run one harness symbolically and print open obligations.  dbg.py harness [k=v ...] [--nc]"""
import sys, os, json
import warnings; warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import runner, registry
runner.load_contracts()
h = registry.HARNESSES[sys.argv[1]]
want = dict(x.split("=", 1) for x in sys.argv[2:] if "=" in x)
for v in h.variants:
    if all(str(v.get(k)) == x for k, x in want.items()):
        r = runner.job_sym(h, v, [] if "--nc" in sys.argv else h.contracts, 1, "quick")
        print(v, "paths", r["paths"], "und", r["undecided"], "obl", len(r["obligations"]), "wall %.1f" % r["wall"])
        if r["undecided"]: print(r["tb"][-3000:])
        for o in r["obligations"]:
            if o["status"] != "proved" or "-v" in sys.argv:
                print("  ", o["status"], o["label"], "|", o["how"], "|", o["note"][:400], "|", {k: round(x, 4) for k, x in (o["env"] or {}).items() if k not in ("c", "G", "eps0")}, "%.2f" % o["time"])
