# usage: mkseeds.py seeds.py  (defines SEEDS=[dict(id,prop,pkg,edits=[(file,old,new)],needs,breaks,demo)])
import sys,os,json,subprocess,shutil,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
for s in ns['SEEDS']:
    D='/verif/seeded/'+s['id']
    os.makedirs(D,exist_ok=True)
    t=tempfile.mkdtemp(); subprocess.run('git clone -q /repo %s/r'%t,shell=True)
    for f,a,b in s['edits']:
        p=t+'/r/'+f; x=open(p).read()
        if x.count(a)!=1: print(s['id'],'EDIT count',x.count(a),repr(a))
        open(p,'w').write(x.replace(a,b,1))
    d=subprocess.run('git diff',shell=True,cwd=t+'/r',capture_output=True,text=True).stdout
    open(D+'/patch.diff','w').write(d)
    shutil.rmtree(t)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(D+'/meta.json','w'),indent=1)
    pkg={'raster':'raster','truetype':'truetype','freetype':'freetype'}[s['pkg']]
    dirn={'raster':'raster/','truetype':'truetype/','freetype':''}[s['pkg']]
    imports='import (\n'+'\n'.join('\t'+(('%s "%s"'%tuple(i.split(' '))) if ' ' in i else '"%s"'%i) for i in sorted(set(s.get('imports',[])+['testing'])))+'\n)\n'
    open(D+'/demo_test.go','w').write('package %s\n\n%s\n%s'%(pkg,imports,s['demo'].lstrip('\n')))
    subprocess.run(['gofmt','-w',D+'/demo_test.go'])
    open(D+'/demo.sh','w').write('''#!/bin/bash
# Runs demo_test.go inside the package of the tree in the current directory.
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go" "$T/demo_test.go"
python3 - "$PWD/%szz_demo_test.go" "$T" <<'P'
import json,sys
o=json.load(open('/opt/vp/mod/overlay.json'))
r={k.replace('/repo/',sys.argv[1][:-len('%szz_demo_test.go')],1) if k.startswith('/repo/') else k:v for k,v in o['Replace'].items()}
r[sys.argv[1]]=sys.argv[2]+'/demo_test.go'
json.dump({"Replace":r},open(sys.argv[2]+'/ov.json','w'))
P
go test -overlay="$T/ov.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''%(dirn,dirn,dirn))
