"""Calls with one argument spoiled: a picture or cube of another size, type, channel count or interleave, no object, a number off its range.
bad_calls.txt lists the ways of spoiling a call that the specification always refuses."""
from hv import *
import copy
SKIP = {"buf", "createH", "createS", "createD", "createP", "fillS", "fillH", "end"}
DATAKEYS = {"d", "data", "w", "op", "seed"}
def shapes(ops):
    """the objects a program creates by itself"""
    o = {}
    for x in ops:
        if x["op"] == "createS": o[x["h"]] = dict(k="S", r=x["r"], c=x["c"], t=x["t"], ch=x["ch"])
        elif x["op"] == "createH": o[x["h"]] = dict(k="H", s=x["s"], l=x["l"], b=x["b"], t=x["t"], il=x["il"])
    return o
def others(o):
    """every object one attribute apart, by name of the difference"""
    out = {"null": None}
    def put(n, **kw): out[n] = dict(o, **kw)
    for t in TYPES:
        if t != o["t"]: put("t%d>%d" % (o["t"], t), t=t)
    if o["k"] == "S":
        if o["r"] != o["c"]: put("rc", r=o["c"], c=o["r"])
        for a in "rc":
            put(a + "+", **{a: o[a] + 1}); put(a + "2", **{a: 2 * o[a]})
            if o[a] > 1: put(a + "-", **{a: o[a] - 1})
        for ch in (1, 2, 3, 4):
            if ch != o["ch"]: put("ch%d>%d" % (o["ch"], ch), ch=ch)
    else:
        if o["s"] != o["l"]: put("sl", s=o["l"], l=o["s"])
        for a in "slb":
            put(a + "+", **{a: o[a] + 1})
            if o[a] > 1: put(a + "-", **{a: o[a] - 1})
        for il in ("bsq", "bil", "bip"):
            if il != o["il"]: put("il" + il, il=il)
    return out
NUMS = {"=0": lambda v: 0, "=-1": lambda v: -1, "+1": lambda v: v + 1, "-1": lambda v: v - 1, "=7": lambda v: 7, "=4": lambda v: 4, "=big": lambda v: 1000}
def ways(p):
    """(kind, place, argument, object or number) for every way of spoiling a call of p"""
    objs = shapes(p.ops); made = set()
    for i, x in enumerate(p.ops):
        if x["op"] == "createS" or x["op"] == "createH": made.add(x["h"]); continue
        if x["op"] in SKIP: continue
        for k, v in x.items():
            if k in DATAKEYS or k.startswith("_"): continue
            pre = "%s.%s:%s=" % (x["op"], x.get("fn", ""), k)
            if isinstance(v, str) and v in made:
                for n, o in others(objs[v]).items(): yield pre + n, i, k, o
            elif isinstance(v, int) and not isinstance(v, bool):
                for n, f in NUMS.items():
                    if f(v) != v: yield pre + n, i, k, f(v)
def spoil(r, p, way):
    kind, i, k, o = way
    q = Prog("%s~%s" % (p.name, kind), p.place, p.fill); q.ops = [copy.copy(x) for x in p.ops[:i]]; q._n = 900
    x = dict(p.ops[i]); num = lambda t: enc(t, r.randint(0, 100))
    if o is None: x[k] = "null"
    elif isinstance(o, int): x[k] = o
    elif o["k"] == "S":
        x[k] = q.h("s"); b = q.buf(o["t"], [num(o["t"]) for _ in range(o["r"] * o["c"] * o["ch"])], heap=1)    # storage of exactly its size
        q.op("createS", h=x[k], r=o["r"], c=o["c"], t=o["t"], ch=o["ch"], data=b, plain=0)
    else: x[k] = q.H(o["s"], o["l"], o["b"], o["t"], o["il"], [num(o["t"]) for _ in range(o["s"] * o["l"] * o["b"])], None)
    q.ops.append(x); q.end(0); q.kind = kind; return q
LIST = os.path.join(VERIF, "tools", "bad_calls.txt")
def listed(path=LIST):
    out = set()
    for line in open(path):
        pre, *ns = line.split()
        out |= {pre + "=" + n for n in ns}
    return out
def spoiled(r, ps, times=1):
    """programs from ps with one call spoiled, so that each listed way occurs (times over) for the calls ps makes"""
    ok, out, count = listed(), [], {}
    for p in ps:
        if sum(len(o.get("d", ())) for o in p.ops) > 3000: continue
        for w in ways(p):
            if w[0] in ok and count.get(w[0], 0) < times:
                count[w[0]] = count.get(w[0], 0) + 1; out.append(spoil(r, p, w))
    return out
