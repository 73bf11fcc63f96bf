"""Writes the table of planted bugs into DESIGN.md."""
import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
s=open('/verif/DESIGN.md').read()
a,rest=s.split('<!-- seeds -->',1); b=rest.split('<!-- /seeds -->',1)[1]
open('/verif/DESIGN.md','w').write(a+'<!-- seeds -->\n| planted bug | caught by | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'+b)
