import sys,json,collections
sys.path.insert(0,'/verif')
# list all violation messages of a property
from sim import boot; boot.boot()
from sim import runner
prop=sys.argv[1]; n=int(sys.argv[2]); off=int(sys.argv[3]) if len(sys.argv)>3 else 0
mod=runner.load(prop)
def f(ix): return lambda: [runner.run_plan(mod, runner.make_plan(mod,1,i,'quick')) for i in ix]
vals=runner.run_jobs([f(range(off+k,off+n,8)) for k in range(8)],8,3000)
c=collections.Counter(); ex={}
import re
for v in vals:
    if v is None or v[0]!='ok': print('ERR',v); continue
    for r in v[1]:
        if r['harness']: print('HARNESS',r['run'],r['harness'][-800:])
        for cl,m in r['violations']:
            key=cl+': '+re.sub(r"'[^']*'|\d+|\"[^\"]*\"",'_',m)[:110]
            c[key]+=1; ex.setdefault(key,(r['run'],m))
for k,n_ in c.most_common(40): print(n_,ex[k][0],'|',k.split(':')[0],'|',ex[k][1][:700]); print()
