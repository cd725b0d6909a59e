import sys; sys.path.insert(0,'/verif/tools')
from hv import *
drv=build()
r=random.Random(1); ps=[]
for k in range(60):
    p=Prog("c%d"%k,*envs(r)); s,l,b=r.randint(1,7),r.randint(1,6),r.randint(1,9); t=r.choice(TYPES); il=r.choice(["bsq","bil","bip"])
    h=p.H(s,l,b,t,il,rnd_data(r,t,s*l*b),rnd_wave(r,b))
    to=r.choice([x for x in ["bsq","bil","bip"] if x!=il]); p.op("convH",fn=il+"2"+to,h=h,g="g"); p.end(); ps.append(p)
t0=time.time(); tr=run(drv,ps); print(time.time()-t0); t0=time.time(); print(validate(tr)); print(time.time()-t0)
json.dump(tr[0],open('/tmp/t0.json','w'))
