import json,glob,os
s=open('/verif/DESIGN.md').read()
rows=["| change | property | needs | caught by |","|---|---|---|---|"]
late={"c11-empty-arrays","c13-zero-weight","c15-old-residual","c17-seed-zero","c18-stale-uncertainty"}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')[:160]} | {m['property']}{' (after strengthening)' if m.get('late') else ''} |")
t="\n".join(rows)
b,e="<!-- table -->","<!-- /table -->"
if "@@TABLE@@" in s: s=s.replace("@@TABLE@@",f"{b}\n{t}\n{e}")
else:
    i,j=s.index(b),s.index(e); s=s[:i]+f"{b}\n{t}\n"+s[j:]
open('/verif/DESIGN.md','w').write(s)
