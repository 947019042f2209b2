#!/usr/bin/env python3
# Fills the tables of DESIGN.md between its markers: the measured coverage, from the evidence files
# of a complete run of the quick tier (VERIF_EVIDENCE_DIR or /verif/evidence), and the planted bugs,
# from the meta.json files of /verif/seeded and the results file given as argument, if any
# (lines "ID CHECK caught|missed").
import json,os,re,sys,glob
ev=os.environ.get('VERIF_EVIDENCE_DIR','/verif/evidence')
rows=['| id | quick tier: cases / schedules | states | transitions | wall s |','|----|----|----|----|----|']
for f in sorted(glob.glob(ev+'/*.json')):
    e=json.load(open(f)); c=e['coverage']
    if e['tier']!='quick' or e['violations']: sys.exit(f+' is not a quiet quick run')
    rows.append(f"| {e['property']} | {c.get('traces_validated_against_impl')} | {c.get('states')} | {c.get('transitions')} | {e['wall_s']:.0f} |")
res={}
if len(sys.argv)>1:
    for l in open(sys.argv[1]):
        i,c,r=l.split()
        res.setdefault(i,[]).append((c,r))
bugs=['| bug | property | needs | what breaks | checks |','|----|----|----|----|----|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    r=res.get(i,[])
    s=', '.join(c if x=='caught' else f'{c} misses' for c,x in r) or '-'
    cell=lambda t:t.replace('|','/').replace('\n',' ')
    bugs.append(f"| {i} | {m['property']} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} | {s} |")
t=open('/verif/DESIGN.md').read()
for name,lines in (('measured',rows),('bugs',bugs)):
    a,b=f'<!-- {name} -->',f'<!-- end {name} -->'
    i,j=t.index(a)+len(a),t.index(b)
    t=t[:i]+'\n'+'\n'.join(lines)+'\n'+t[j:]
open('/verif/DESIGN.md','w').write(t)
