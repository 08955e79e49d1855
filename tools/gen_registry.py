#!/usr/bin/env python3
"""One-off generator of harness/src/registry_<ver>.rs (committed) from the snapshot's type names."""
import json,sys
for v in ["2024_11_05","2025_03_26","2025_06_18","2025_11_25","2026_07_28","draft"]:
    d=json.load(open(f"/verif/schemas/{v}.json"))
    skip=set(json.load(open("/verif/tools/registry_skip.json")).get(v,[]))
    with open(f"/verif/harness/src/registry_{v}.rs","w") as w:
        w.write("// generated by tools/gen_registry.py\nreg! {\n")
        for n in sorted(d):
            if n not in skip: w.write(f"    {n},\n")
        w.write("}\n")
