"""prints, per property, the harnesses that decide it (used for DESIGN.md)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import runner, registry
runner.load_contracts()
hs = list(registry.HARNESSES.values()) if isinstance(registry.HARNESSES, dict) else list(registry.HARNESSES)
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    try:
        ev = json.load(open(os.path.join(HERE, "evidence", p["id"] + ".json")))["coverage"]
        n = "%s/%s" % (ev["discharged"], ev["obligations"])
    except Exception:
        n = "?"
    row = []
    for h in hs:
        if p["id"] in h.props:
            m = "" if h.mode == "both" else " (concrete)" if h.mode == "concrete" else " (symbolic)"
            row.append(h.name + ("×%d" % len(h.variants) if len(h.variants) > 1 else "") + m + (" **bounded**" if h.bounded else ""))
    print("| %s | %s | %s | %s |" % (p["id"], p["title"], n, ", ".join(row)))
