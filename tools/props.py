import json,sys
p='/verif/contracts/props.json'
d=json.load(open(p))
C="Every obligation generated from /repo's current source for the functions under contract must be discharged; random inputs to the real code only look for a failing input."
def add(i,tests,rule,claim=True):
    e=d.setdefault(i,{}); e['tests']=tests; e['rule']=rule
    if claim: e['claim']=C
exec(open(sys.argv[1]).read())
d=dict(sorted(d.items()))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
