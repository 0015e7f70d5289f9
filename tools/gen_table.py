#!/usr/bin/env python3
"""Refreshes the table of planted changes in DESIGN.md from the descriptions beside them (documentation only, no check uses it)."""
import glob,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted change | property | what it breaks |","|---|---|---|"]
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    d=json.load(open(f)); rows.append("| %s | %s | %s |"%(f.split("/")[-2],d["property"]+(" (not caught)" if d.get("caught")==False else ""),d["what_it_breaks"]))
p=V+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"(<!-- table: tools/gen_table.py -->\n).*?(<!-- end -->)",lambda m: m.group(1)+"\n".join(rows)+"\n"+m.group(2),s,flags=re.S)
open(p,"w").write(s)
