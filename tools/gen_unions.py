"""One-off generator of harness/src/unions_<version>.rs (output committed): variants of the schema unions."""
import re
R = "/repo/src/generated_schema"
for ver in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
    src = re.sub(r"^\s*///.*$", "", open(f"{R}/{ver}/mcp_schema.rs").read(), flags=re.M)
    src = re.sub(r"/\*\*.*?\*/", "", src, flags=re.S)
    rows = []
    for m in re.finditer(r"^pub enum (\w+) \{\n(.*?)^\}", src, re.M | re.S):
        vs = re.findall(r"^    (\w+)\(([^()]*)\),", m[2], re.M)
        typed = [(v, t) for v, t in vs if re.fullmatch(r"[A-Z]\w+", t) and f"pub struct {t} {{" in src]
        if len(typed) < 2:
            continue
        rest = " ; _" if len(typed) < len(vs) else ""
        rows.append(f"    {m[1]} {{ " + ", ".join(f"{v}({t})" for v, t in typed) + rest + " }")
    open(f"/verif/harness/src/unions_{ver}.rs", "w").write("// generated by tools/gen_unions.py\nunions! {\n" + ",\n".join(rows) + "\n}\n")
    print(ver, len(rows))
