#!/usr/bin/env python3
# Fills the table of planted bugs in DESIGN.md (between its two markers).
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | caught by | needs |","|---|---|---|"]
for d in sorted(glob.glob(root+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append("| %s | %s | %s |"%(os.path.basename(d),m['property'],m['needs'].replace('|','\\|')))
f=root+'/DESIGN.md'; s=open(f).read()
t="<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->"
s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda _:t,s,flags=re.S) if '<!-- seeds -->' in s else s.replace('@@SEEDS@@',t)
open(f,'w').write(s)
