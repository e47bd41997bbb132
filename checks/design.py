'''Writes DESIGN.md from design.tmpl.md, props.py, properties.jsonl, the findings and the planted bugs.'''
import sys,json
sys.path.insert(0,'/verif/checks')
import props
P=props.PROPS
T={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l);T[d['id']]=d['title']
rows=[]
for pid in sorted(P):
    p=P[pid]
    ent='; '.join('`%s` (%s) %s'%(v['harness'].replace('|','\\|'),', '.join(v['drivers']),'/'.join(v['cfgs'])) for v in p.get('values',[]))
    if not p.get('values'): ent='`qacg` over `d_roots.cpp`'
    ex=p['explanation'].replace(props.BOUND,'').replace(' Sizes and shapes: ','')
    rows.append('| %s | %s | %s | %s |'%(pid,T[pid],ent,ex.replace('|','\\|')))
s=open('/verif/checks/design.tmpl.md').read()
s=s.replace('| id | entry states (driver) | rule | quick bounds |','| id | property | entry states (driver) builds | bounds of the quick check |')
s=s.replace('@TABLE@','<!--T-->\n'.replace('<!--T-->\n','')+'\n'.join(rows))
k=json.load(open('/verif/known_findings.json'))
s=s.replace('@FIXED@','\n'.join('* '+x.replace('fixed: property=','') for x in k['fixed']))
import glob
sd=[]
for f in sorted(glob.glob('/verif/seeded*/*/meta.json')):
    m=json.load(open(f)); sd.append('* `%s` (caught by %s): %s; needs %s.'%(f.split('/')[-2],m['property'],m['what_it_breaks'],m['needs']))
s=s.replace('@SEEDS@','\n'.join(sd))
open('/verif/DESIGN.md','w').write(s)
