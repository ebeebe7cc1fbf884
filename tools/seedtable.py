"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows={}
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    j=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    rows.setdefault(j['property'],[]).append((i,j['what_it_breaks']))
out=[]
for p in sorted(rows):
    out.append('* **%s**: '%p+'; '.join('`%s` (%s)'%(i[len(p)+1:],w) for i,w in rows[p])+'.')
f=root+'/DESIGN.md'
s=open(f).read()
a='<!-- planted -->\n'
if a in s: s=s[:s.index(a)]
s+=a+'\n'.join(out)+'\n'
open(f,'w').write(s)
