#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md (caught-by from seeded/*/caught.txt).
import json,os,glob,re
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=["| bug | breaks | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob(H+"/seeded/*/meta.json")):
    m=json.load(open(d)); c=os.path.join(os.path.dirname(d),"caught.txt")
    by=open(c).read().strip() if os.path.exists(c) else "?"
    rows.append("| %s | %s: %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m["property"],m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/"),by))
s=open(H+"/DESIGN.md").read()
s=re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda _:"<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->",s,flags=re.S)
open(H+"/DESIGN.md","w").write(s)
