#!/usr/bin/env python3
"""check.py Cxx: decides one property against /repo's current working tree.
   exit 0 held on everything explored, 1 with a VIOLATION line, 2 the machinery itself failed."""
import concurrent.futures as cf, collections, hashlib
from hv import *
from hv import _clean
import registry, gen_bad
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known(pid):
    """'known: property=Cxx op=<op> match=<regex over the rejected event> :: text' lines; 'fixed:' lines suppress nothing"""
    out = []
    for line in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r"known: property=(\S+) op=(\S+) match=(.*?) :: (.*)", line)
        if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    return out
def mc(job):
    module, cfg = job
    rc, out = tlc(module, cfg, workers=4)
    if rc != 0 or "No error has been found" not in out: raise Broken("the specification itself fails %s %s:\n%s" % (module, cfg, out[-3000:]))
    g, d = stats(out)
    if d < 2 and "ASSUME" not in out and "states" not in out: raise Broken("nothing explored by " + cfg)
    return cfg, g, d
def sim(job):
    """behaviours drawn from the specification by TLC's simulator, as programs"""
    module, cfg, num, conv = job
    rc, out = tlc(module, cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(SEED)])
    progs = []
    for n, line in enumerate(re.findall(r'^"PROG (.*)"$', out, re.M)):
        progs.append(conv(json.loads(json.loads('"' + line + '"')), n))
    if rc != 0 or len(progs) < num // 2: raise Broken("simulation of %s failed:\n%s" % (cfg, out[-2000:]))
    return progs
def describe(ev):
    o = dict(ev["op"])
    for k, v in list(o.items()):
        s = json.dumps(v)
        if len(s) > 200: o[k] = s[:200] + "..."
    return json.dumps(dict(op=o, out=ev["out"], ret=ev["ret"]))[:1500]
def event_key(ev, tr):
    return json.dumps(dict(op=ev["op"], out=ev["out"], ret=ev["ret"]))
# ---- judges: run cases (tuples of programs) and let TLC decide; each returns ({case: (step, event, stderr)}, transitions, states, calls)
def judge_trace(drv, cases, module="Trace", **kw):
    tr = run(drv, [c[0] for c in cases], **kw)
    rej, g, d = validate(tr, module)
    return {k: (st, tr[k]["ev"][st - 1], tr[k]["stderr"]) for k, st in rej.items()}, g, d, [e for t in tr for e in t["ev"]]
def judge_life(drv, cases, **kw): return judge_trace(drv, cases, "Life", **kw)
def judge_twin(drv, cases, **kw):
    tr = run(drv, [p for c in cases for p in c[:2]], **kw)
    items = [dict(a=tr[2 * k]["ev"], b=tr[2 * k + 1]["ev"], at=c[2][:len(tr[2 * k]["ev"])]) for k, c in enumerate(cases)]
    for it in items: it["at"] += [len(it["b"]) + 1] * (len(it["a"]) - len(it["at"]))
    rej, g, d = validate(items, "Twin")
    return {k: (st, tr[2 * k]["ev"][st - 1], tr[2 * k]["stderr"] + tr[2 * k + 1]["stderr"]) for k, st in rej.items()}, g, d, [e for t in tr for e in t["ev"]]
def twins(r, drv, ps):
    """pairs of worlds for each program: another fill and placement, and other calls before and in between"""
    for p in ps: p.place, p.fill = 0, 0
    tr = run(drv, ps)
    calm = [p for p, t in zip(ps, tr) if t["ev"] and t["ev"][-1]["op"]["op"] == "end" and t["ev"][-1]["out"] == "ok" and sum(len(str(o)) for o in p.ops) < 60000]
    out = []
    uses = collections.defaultdict(list)        # programs by the calls they make
    for x in calm:
        for f in {o["op"] for o in x.ops}: uses[f].append(x)
    count = collections.Counter({f: len(v) for f, v in uses.items()})
    for p in ps:
        q = Prog(p.name + "~env", r.choice([1, 2, 3, 4]), r.choice([255, 0xA5, 1, 0x3F, -1, -1])); q.ops = p.ops
        out.append((p, q, list(range(1, len(p.ops) + 1))))
        # mostly a program that makes one of the same (least common) calls, otherwise any
        rare = sorted({o["op"] for o in p.ops}, key=lambda f: (count[f], f))[:2]
        kin = uses.get(r.choice(rare), []) if rare else []
        o = r.choice(kin if kin and r.random() < .75 else calm); m = Prog(p.name + "~mix", r.choice([0, 4]), r.choice([0, -1])); at = []
        other = [rename(x) for x in o.ops[:-1]]; mine = list(p.ops); body = len(mine) - 1
        k = r.randint(0, len(other)) if r.random() < .5 else len(other)     # all before, or interleaved
        m.ops += other[:k]; other = other[k:]
        for n, x in enumerate(mine):
            if n < body:
                while other and r.random() < .5: m.ops.append(other.pop(0))
            m.ops.append(x); at.append(len(m.ops))
        out.append((p, m, at))
    return out
NOTNAMES = {"op", "fm", "ext", "fn", "ty", "il", "text", "k_", "name"}
def rename(o):
    """the same call on objects and files of its own"""
    return {k: "z_" + v if isinstance(v, str) and v != "null" and k not in NOTNAMES else v for k, v in o.items()}
def main():
    pid = sys.argv[1]; t0 = time.time()
    P = registry.REG[pid]; thorough = TIER == "thorough"
    tier = "thorough" if thorough else "quick"; mode = P.get("judge", "trace")
    judge = dict(trace=judge_trace, life=judge_life, twin=judge_twin)[mode]
    ex = cf.ThreadPoolExecutor(4)
    jobs = [ex.submit(mc, j) for j in P.get("mc_thorough" if thorough and "mc_thorough" in P else "mc", [])]
    sims = [ex.submit(sim, (m, c, n * (20 if thorough else 1), f)) for m, c, n, f in P.get("sim", [])]
    builds = {m: ex.submit(build, m) for m in sorted({m for m, _, _ in P["gens"]} | ({P.get("simmode", "c")} if sims else set()))}
    work = []
    for k, (dm, fn, n) in enumerate(P["gens"]):
        r = random.Random("%s-%d-%d" % (pid, SEED, k)); ps = []
        for q in range(P.get("thorough", 12) if thorough else 2 if mode == "trace" and n > 1 else 1): ps += fn(r, n)
        if mode == "trace": ps += gen_bad.spoiled(r, ps, 4 if thorough else 1)     # and refused calls
        work.append((dm, ps))
    nsim = 0
    for f in sims: work.append((P.get("simmode", "c"), f.result())); nsim += len(work[-1][1])
    drivers = {m: f.result() for m, f in builds.items()}
    progs = 0; digests = set(); ops = collections.Counter(); tg = td = 0; rejected = []; unstable = 0; samples = []
    for dm, ps in work:
        if mode != "life" and pid != "C21":      # what is left at the end is the business of C08 (and of C21 for cube objects)
            for p in ps:
                if p.ops and p.ops[-1]["op"] == "end": p.ops[-1] = dict(p.ops[-1], chk=0)
        for b in range(0, len(ps), 3000):
            part = ps[b:b + 3000]
            cases = [(p,) for p in part] if mode != "twin" else twins(random.Random(SEED), drivers[dm], part)
            rej, g, d, evs = judge(drivers[dm], cases); tg += g; td += d
            rejected += [(dm, cases[k], v) for k, v in sorted(rej.items())]
            for e in evs: ops["%s:%s" % (e["op"]["op"], e["out"])] += 1
            samples = [describe(e) for e in evs[:4]]
            progs += len(cases); digests |= {hashlib.sha1("".join(p.text().split("\n", 1)[1] for p in c[:2]).encode()).digest() for c in cases}
    mcs = [j.result() for j in jobs]
    # a rejection counts when it happens again on a fresh run of the same case
    viol, kn = [], []
    for dm, c, _ in rejected[:60]:
        for attempt in range(2):
            r2, _, _, _ = judge(drivers[dm], [c], timeout=30, symbolize=1)
            if r2: break
        if not r2: unstable += 1; continue
        step, ev, err = r2[0]
        hit = [txt for op, rx, txt in known(pid) if (op == ev["op"]["op"]) and rx.search(event_key(ev, None))]
        if hit: kn.append(hit[0])
        else: viol.append((dm, c, step, ev, err))
        if len(viol) >= 5: break
    for txt in sorted(set(kn)): print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    if unstable and not viol: print("note: %d rejections did not repeat and were not counted" % unstable)
    calls = sum(ops.values())
    evid = dict(property=pid, tier=tier, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=P.get("assume", []) + ["the driver's projection of library objects is faithful", "gcc -O0 with address sanitizer; the library's behaviour at other optimisation levels is the same on executions without undefined behaviour"],
        coverage=dict(states=td + sum(d for _, _, d in mcs), transitions=tg + sum(g for _, g, _ in mcs), traces_validated_against_impl=progs,
            samples=samples, programs=progs, distinct_programs=len(digests), calls_validated=calls,
            model_checked=[dict(config=c, states=d, transitions=g) for c, g, d in mcs], generated_from_spec=nsim,
            calls=dict(sorted(ops.items())), rejected=len(rejected), unrepeatable=unstable, known=len(kn)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
        for n, (dm, c, step, ev, err) in enumerate(viol):
            f = os.path.join(d, "%s-%d.txt" % (pid, n))
            with open(f, "w") as fh: fh.write("# property %s, driver %s, rejected at call %d: %s\n# stderr: %s\n%s" % (pid, dm, step, describe(ev), err[:1500].replace("\n", "\n# "), "\n".join(p.text() for p in c[:2])))
        print("rejected call: " + describe(viol[0][3]))
        if viol[0][4]: print(viol[0][4][:800])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(d, "%s-0.txt" % pid)))
        return 1
    print("%s held: %d cases, %d calls, %d spec states, %.1fs" % (pid, progs, calls, sum(d for _, _, d in mcs), time.time() - t0))
    return 0
if __name__ == "__main__":
    try: rc = main()
    except Broken as e: print("BROKEN: " + str(e)); rc = 2
    except subprocess.TimeoutExpired as e: print("BROKEN: timeout " + str(e)[:300]); rc = 2
    sys.stdout.flush(); _clean(); os._exit(rc)
