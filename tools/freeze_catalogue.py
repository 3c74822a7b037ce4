import sys,json; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from mc import c17
from concurrent.futures import ProcessPoolExecutor
jobs=[(n,(1,a,b,c)) for n in (8,7,6,5) for a in (1,0) for b,c in ((1,1),(1,0),(0,1))]
def go(j):
    n,o=j
    out,err=c17.build(n,o,0,[0]); return out[0]["4"]
res={}
with ProcessPoolExecutor(8) as ex:
    for (n,o),l in zip(jobs,ex.map(go,jobs)): 
        if len(l)<4000: res["%d %d%d%d"%((n,)+o[1:])]=";".join(l)
json.dump(res,open('/verif/spec/four_brackets.json','w'),ensure_ascii=False,indent=0)
print({k:v.count(";")+1 for k,v in res.items()})
