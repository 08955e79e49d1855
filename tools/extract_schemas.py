#!/usr/bin/env python3
"""One-off: snapshot the JSON Schemas embedded in the doc comments of the generated
types, so the oracle no longer depends on what the working tree says.
Usage: extract_schemas.py REPO OUTDIR   (output is committed; no check runs this)"""
import json, re, sys, os
repo, out = sys.argv[1:3]
for v in ["2024_11_05","2025_03_26","2025_06_18","2025_11_25","2026_07_28","draft"]:
    src=open(f"{repo}/src/generated_schema/{v}/mcp_schema.rs").read().split("\n")
    defs={}; i=0; pend=None; bad=[]
    while i<len(src):
        l=src[i]
        if l.strip()=="/// ```json":
            buf=[]; i+=1
            while src[i].strip()!="/// ```":
                buf.append(re.sub(r"^\s*/// ?","",src[i])); i+=1
            try: pend=json.loads("\n".join(buf))
            except Exception as e: bad.append((i,str(e))); pend=None
        else:
            m=re.match(r"pub (struct|enum|type) (\w+)",l)
            if m:
                if pend is not None: defs[m.group(2)]=pend
                else: bad.append((i+1,"no schema "+l))
                pend=None
        i+=1
    json.dump(defs,open(f"{out}/{v}.json","w"),indent=1,sort_keys=True)
    print(v,len(defs)); 
    for b in bad: print("   ",b)
