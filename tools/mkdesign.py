#!/usr/bin/env python3
# mkdesign.py HEAD SEC3 SEEDLOG: writes DESIGN.md from its parts and the last evidence.
import json,glob,sys,os,re
V='/verif'
rows=['| id | functions under contract | obligations | discharged by | covers | solver s | wall s | harness cases |','|---|---|---|---|---|---|---|---|']
for f in sorted(glob.glob(V+'/evidence/C*.json')):
    d=json.load(open(f)); c=d['coverage']
    by=', '.join('%s %d'%(k,v) for k,v in sorted(c['discharged_by'].items(),key=lambda x:-x[1]))
    rows.append('| %s | %d | %d | %s | %s | %s | %s | %d |'%(f[-8:-5],len(c['functions_under_contract']),c['obligations'],by,'%d/%d'%(c['vacuity_covers_ok'],c['vacuity_covers']),round(c['solver_ms']/1000),round(d['wall_s']),c['evaluations']))
seeds=['| change | property | needs | result |','|---|---|---|---|']
res={}
for l in open(sys.argv[3]):
    p=l.split()
    if len(p)>2: res[p[0]]=p[1]
n=0
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); n+=1
    r={'CAUGHT':'caught, with a failing input','caught-nfif':'caught, no failing input'}.get(res.get(i,'?'),res.get(i,'?'))
    seeds.append('| %s | %s | %s | %s |'%(i,d['property'],d['needs'],r))
t=open(sys.argv[1]).read()+open(sys.argv[2]).read()
t=t.replace('@@TABLE@@','\n'.join(rows)).replace('@@SEEDS@@','\n'.join(seeds)).replace('@@N@@',str(n))
open(V+'/DESIGN.md','w').write(t)
