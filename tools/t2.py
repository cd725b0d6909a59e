import sys; sys.path.insert(0,'/verif/tools')
from hv import *
mod=__import__(sys.argv[1]); mods=sys.argv[2:]; N=int(os.environ.get("N","100"))
drv=build(os.environ.get("MODE","c"))
for m in mods:
    r=random.Random(SEED); ps=getattr(mod,m)(r,N)
    t0=time.time(); tr=run(drv,ps); t1=time.time(); 
    try: rej,g,s=validate(tr)
    except Broken as e: print(m,"BROKEN",str(e)[-1500:]); continue
    print(m,len(ps),"progs",round(t1-t0,2),round(time.time()-t1,2),"states",s,"rej",len(rej))
    seen={}
    for k,st in rej.items():
        e=tr[k]["ev"][st-1]; key=(e["op"]["op"],e["op"].get("fn"),e["out"]); seen.setdefault(key,[]).append((tr[k]["id"],st,k))
    for key,v in seen.items():
        k=v[0][2]; e=tr[k]["ev"][v[0][1]-1]; print("  ",key,len(v),v[0],[x[0] for x in v[1:6]], json.dumps(e)[:400], tr[k]["stderr"].split("\n")[1:2])
