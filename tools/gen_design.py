"""assembles DESIGN.md from tools/design_head.md, the registry, seeded/ and tools/design_tail.md"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(HERE, "tools", n)).read()
table = subprocess.run([sys.executable, os.path.join(HERE, "tools", "harness_table.py")], capture_output=True, text=True, check=True).stdout
seeds = ["| planted bug | property | what it breaks |", "|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("\n", " ").replace("|", "/")))
sys.path.insert(0, HERE)
from engine import runner, registry
runner.load_contracts()
hs = list(registry.HARNESSES.values()) if isinstance(registry.HARNESSES, dict) else list(registry.HARNESSES)
bounds = ["* `%s` (%s): %s." % (h.name, ", ".join(h.props), h.bounded) for h in hs if h.bounded]
out = rd("design_head.md") + """
## 4. The properties and what decides each

The statement of each property is in `properties.jsonl`; the column "obligations" is discharged/generated in the last quick run.
All are claimed; none is not-applicable.

| id | property | obligations | harnesses (×n: variants) |
|---|---|---|---|
""" + table + rd("design_tail.md").replace("@@SEEDS@@", "\n".join(seeds)).replace("@@BOUNDS@@", "\n".join(bounds))
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)
