"""What each check runs: exhaustive configurations, spec-drawn behaviours, program generators."""
from hv import *
import gen_core as gc, gen_proc as gp, gen_alg as ga, gen_cxx as gx, gen_large as gl
def core_prog(hist, n):
    """a behaviour of GenCore as a driver program"""
    p = Prog("spec-%d" % n, n % 5, [0xA5, 0, 255, -1][n % 4])
    for o in hist:
        o = dict(o); o.pop("out", None); op = o.pop("op")
        if op == "createH":
            v, d, w = o.pop("v"), o.pop("d"), o.pop("wv")
            bd = p.buf(o["t"], d) if v else "null"; bw = p.buf(4, w) if v else "null"
            p.op(op, data=bd, w=bw, plain=0, **o)
        elif op in ("saveH", "loadH", "loadsizeH"): p.op(op, path="p", **o)
        else: p.op(op, **o)
    return p.end()
def proc_prog(hist, n):
    """a behaviour of GenProc as a driver program"""
    p = Prog("pipe-%d" % n, n % 5, [0xA5, 0, 255, -1][n % 4])
    for o in hist:
        o = dict(o); op = o.pop("op")
        if op == "createD": d = o.pop("dd"); p.op(op, data=p.buf(1, d), **o)
        else: p.op(op, **o)
    return p.end()
def cxx_prog(hist, n):
    """a behaviour of GenCxx as a driver program"""
    p = Prog("life-%d" % n, n % 5, [0xA5, 0, 255, -1][n % 4])
    for o in hist:
        o = dict(o); o.pop("out", None); op = o.pop("op"); d, w = o.pop("dd", []), o.pop("ww", [])
        if o.get("data") == "xd": o["data"] = p.buf(o["t"], d, 1)
        if o.get("w") == "xw": o["w"] = p.buf(4, w, 1)
        if op in ("saveX", "readX", "openX", "readsizeX"): o.update(stem="p", ext=".img")
        p.op(op, **o)
    return p.end()
def core(pid, gens, nsim=150, **kw):
    return dict(gens=gens, mc=[("MCCore.tla", "cfg/MC_%s.cfg" % pid)], mc_thorough=[("MCCore.tla", "cfg/MC_%s.thorough.cfg" % pid)],
                sim=[("GenCore.tla", "cfg/Gen_%s.cfg" % pid, nsim, core_prog)], **kw)
def proc(pid, n, sim=0, extra=(), num=0, **kw):
    law = [pid] + list(extra)
    d = dict(gens=[("c", getattr(gp, pid.lower()), n)], mc=[("MCProc.tla", "cfg/MC_%s.cfg" % c) for c in law], mc_thorough=[("MCProc.tla", "cfg/MC_%s.thorough.cfg" % c) for c in law], **kw)
    if num: d["mc"].append(("MCNum.tla", "cfg/MC_Num.cfg")); d["mc_thorough"].append(("MCNum.tla", "cfg/MC_Num.cfg"))
    if sim: d["sim"] = [("GenProc.tla", "cfg/Gen_%s.cfg" % pid, sim, proc_prog)]
    return d
def alg(pid, n, extra=(), num=0):
    law = [pid] + list(extra)
    d = dict(gens=[("c", getattr(ga, pid.lower()), n)], mc=[("MCAlg.tla", "cfg/MC_%s.cfg" % c) for c in law], mc_thorough=[("MCAlg.tla", "cfg/MC_%s.thorough.cfg" % c) for c in law])
    if num: d["mc"].append(("MCNum.tla", "cfg/MC_Num.cfg")); d["mc_thorough"].append(("MCNum.tla", "cfg/MC_Num.cfg"))
    return d
REG = {
    "C01": core("C01", [("c", gc.c01, 200)]),
    "C02": core("C02", [("c", gc.c02, 200)]),
    "C03": core("C03", [("c", gc.c03, 200)]),
    "C04": core("C04", [("c", gc.c04, 200)]),
    "C05": core("C05", [("c", gc.c05, 200)]),
    "C06": dict(gens=[("c", gc.c06, 300)]),
    "C07": core("C07", [("c", gc.c07, 200)]),
    "C09": dict(gens=[("c", gc.c09, 250)]),
    "C10": dict(gens=[("c", gc.c10, 200)]),
    "C11": proc("C11", 300),
    "C12": proc("C12", 300, sim=60),
    "C13": proc("C13", 300, sim=60),
    "C14": proc("C14", 200, sim=60),
    "C15": proc("C15", 120, sim=60, num=1),
    "C16": proc("C16", 150, sim=60),
    "C17": proc("C17", 200, sim=60),
    "C18": proc("C18", 250, extra=["C18b"], num=1),
    "C19": proc("C19", 200),
    "C20": proc("C20", 300, num=1),
    "C22": proc("C22", 150, sim=60),
    "C24": proc("C24", 150, num=1),
    "C25": proc("C25", 150),
    "C32": proc("C32", 120, sim=60),
    "C33": proc("C33", 150),
    "C34": proc("C34", 120),
    "C23": alg("C23", 250, extra=["C23b"], num=1),
    "C26": alg("C26", 300),
    "C27": alg("C27", 250, extra=["C27b"]),
    "C28": alg("C28", 250),
    "C29": alg("C29", 300),
    "C30": alg("C30", 300),
    "C35": alg("C35", 300, num=1),
    "C36": alg("C36", 200),
    "C37": alg("C37", 250),
}
REG["C21"] = dict(gens=[("cxx", gx.c21, 250)], mc=[("MCCxx.tla", "cfg/MC_C21%s.cfg" % x) for x in ("", "b", "c")], mc_thorough=[("MCCxx.tla", "cfg/MC_C21%s.thorough.cfg" % x) for x in ("", "b", "c")], sim=[("GenCxx.tla", "cfg/Gen_C21.cfg", 150, cxx_prog)], simmode="cxx")
for _c in list(REG):        # objects beyond the reach of one and two byte counters
    if hasattr(gl, "l" + _c[1:]): REG[_c]["gens"].append(("cxx" if _c == "C21" else "c", getattr(gl, "l" + _c[1:]), 1))
ALL = [gc.c01, gc.c02, gc.c03, gc.c04, gc.c05, gc.c06, gc.c07, gc.c09, gc.c10] + [getattr(gp, c) for c in ("c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c22", "c24", "c25", "c32", "c33", "c34")] + [getattr(ga, c) for c in ("c23", "c26", "c27", "c28", "c29", "c30", "c35", "c36", "c37")]
REG["C23"]["mc"].append(("MCNum.tla", "cfg/MC_NumWide.cfg")); REG["C23"]["mc_thorough"].append(("MCNum.tla", "cfg/MC_NumWide.cfg"))
REG["C08"] = dict(core("C08", [("c", gc.c08, 250)] + [("c", f, 40) for f in ALL] + [("cxx", gx.c21, 60)], 150), judge="life")
REG["C08"]["sim"].append(("GenProc.tla", "cfg/Gen_Proc.cfg", 60, proc_prog))
REG["C31"] = dict(gens=[("c", f, 30) for f in ALL] + [("cxx", gx.c21, 40)], sim=[("GenProc.tla", "cfg/Gen_Proc.cfg", 60, proc_prog)], judge="twin")
