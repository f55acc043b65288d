#!/opt/venv/bin/python
import os, sys, json, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("PYTHONWARNINGS", "ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    from engine import runner
    if a.replay:
        d = json.load(open(a.replay))
        runner.load_contracts()
        from engine import registry
        if d.get("no_failing_input_found"):
            print("no input: the failed obligations are listed in the file; re-run the check to redo the proof")
            return 0
        h = registry.HARNESSES[d["harness"]]
        r = runner.run_concrete(h, d["variant"], env=d["input"])
        if r is None:
            print("input rejected by the precondition")
            return 0
        if r[1] is None:
            print("property holds on this input")
            return 0
        print("got", r[1].got, "want", r[1].want, "at", r[1].label)
        print("VIOLATION property=%s replay=%s" % (d["property"], a.replay))
        return 1
    return runner.check_property(a.prop, a.tier, a.seed, only=a.only)


if __name__ == "__main__":
    sys.exit(main())
