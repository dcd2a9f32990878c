import json,sys
d=json.load(open('target/%s.json'%sys.argv[1]))
acc={}
def walk(x):
    if isinstance(x,dict):
        for k,v in x.items():
            if k=='cut_unsup' and isinstance(v,dict):
                for a,n in v.items(): acc[a]=acc.get(a,0)+n
            elif isinstance(v,(dict,list)): walk(v)
    elif isinstance(x,list):
        for y in x: walk(y)
walk(d)
for a,n in sorted(acc.items(),key=lambda z:-z[1])[:12]: print(n,a[:300])
