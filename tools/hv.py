"""Shared machinery: build the driver from /repo, run programs on it, validate the traces with TLC."""
import atexit, json, math, os, random, re, shutil, struct, subprocess, sys, tempfile, time, zlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 1)

_tmp = tempfile.mkdtemp(prefix="hv-", dir="/tmp")
_keep = os.environ.get("HV_KEEP")
@atexit.register
def _clean():
    if not _keep:
        shutil.rmtree(_tmp, ignore_errors=True)
def tmp(name): return os.path.join(_tmp, name)

class Broken(Exception):
    """The machinery itself failed (exit 2): never a verdict."""

# ------------------------------------------------------------------ element encoding
ESZ = {1:1, 2:2, 3:4, 4:4, 5:8, 12:2, 13:4, 14:8, 15:8}
TYPES = [1, 2, 3, 4, 5, 12, 13, 14, 15]
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
def ef(x):
    if x != x: return [0, 999]
    if math.isinf(x): return [1 if x > 0 else -1, 999]
    if x == 0: return [0, -999 if math.copysign(1, x) < 0 else 0]
    m, e = math.frexp(f32(x)); m = int(m * (1 << 24)); e -= 24
    while m % 2 == 0: m //= 2; e += 1
    return [m, e]
def ed(x):
    if x != x: return [0, 0, 999]
    if math.isinf(x): return [0, 1 if x > 0 else -1, 999]
    if x == 0: return [0, 0, -999 if math.copysign(1, x) < 0 else 0]
    m, e = math.frexp(x); m = int(m * (1 << 53)); e -= 53
    while m % 2 == 0: m //= 2; e += 1
    s = -1 if m < 0 else 1; m = abs(m)
    return [s * (m >> 27), s * (m & ((1 << 27) - 1)), e]
def enc(t, v):
    if t in (1, 2, 3, 12): return int(v)
    if t == 4: return ef(v)
    if t == 5: return ed(v)
    if t == 13: return [v >> 16 & 65535, v & 65535]
    v &= (1 << 64) - 1
    return [v >> 48, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
def dec(t, v):
    if t == 4: return {0: float("nan"), 1: math.inf, -1: -math.inf}[v[0]] if v[1] == 999 else math.ldexp(v[0], v[1])
    if t == 5: return math.ldexp(v[0] * (1 << 27) + v[1], v[2])
    if t == 13: return v[0] << 16 | v[1]
    return v
RANGE = {1: (0, 255), 2: (-32768, 32767), 12: (0, 65535), 3: (-2**31, 2**31 - 1), 13: (0, 2**32 - 1), 14: (-2**63, 2**63 - 1), 15: (0, 2**64 - 1)}
def rnd_elem(r, t):
    """a random element of type t that exercises every byte"""
    if t in RANGE:
        lo, hi = RANGE[t]
        return r.choice([r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -9), 9), lo, hi])
    c = r.random()
    if t == 4:
        return f32(r.choice([r.uniform(-1000, 1000), r.randint(-2**24, 2**24) / 256.0, float(r.randint(-300, 300)), 1e30 * r.random(), r.random() * 1e-30]))
    return r.choice([r.uniform(-1000, 1000), r.random() * 1e200, -r.random() * 1e-200, float(r.randint(-300, 300))])
def rnd_data(r, t, n): return [enc(t, rnd_elem(r, t)) for _ in range(n)]
def rnd_wave(r, n, io=False):
    base = r.choice([400, 399.5, 900, 2500]); step = r.choice([2.5, 10, 3.25, 0.5, 5.515625])
    if r.random() < .25:         # micrometres with six decimals, or anything with few
        q = r.random()
        return [ef(f32(round(r.uniform(.3, 14), 6) if q < .6 else round(r.uniform(-1, 1), 6) if q < .75 else float(r.randint(0, 10 ** 7)) / 4)) for _ in range(n)]
    if io or r.random() < .7: return [ef(f32(base + step * k)) for k in range(n)]
    return [ef(f32(r.uniform(300, 3000))) for _ in range(n)]

# ------------------------------------------------------------------ programs
class Prog:
    """A history of calls.  Fields starting with '_' go to the driver only."""
    def __init__(self, name, place=0, fill=0xA5):
        self.name, self.place, self.fill, self.ops, self._n = name, place, fill, [], 0
    def h(self, p="h"):
        self._n += 1
        return "%s%d" % (p, self._n)
    def op(self, name, **kw):
        self.ops.append(dict(op=name, **kw)); return self
    def end(self, chk=1): return self.op("end", chk=chk)
    # conveniences
    def buf(self, t, d, heap=0):
        h = self.h("b"); self.op("buf", h=h, t=t, d=d, heap=heap); return h
    def H(self, s, l, b, t, il, d=None, w=None, plain=0):
        h = self.h("h")
        bd = self.buf(t, d) if d is not None else "null"
        bw = self.buf(4, w) if w is not None else "null"
        self.op("createH", h=h, s=s, l=l, b=b, t=t, il=il, data=bd, w=bw, plain=plain); return h
    def S(self, r, c, t, ch=1, d=None):
        self._s = getattr(self, "_s", zlib.crc32(self.name.encode()) % 3) + 1
        if d is not None and self._s % 3 == 0 and t in TYPES and r > 0 and c > 0 and ch > 0 and len(d) == r * c * ch:
            # over storage of the caller's, exactly as large as the picture: whatever reaches beyond it is caught
            b = self.buf(t, d, heap=1); h = self.h("s"); self.op("createS", h=h, r=r, c=c, t=t, ch=ch, data=b, plain=0); return h
        h = self.h("s"); self.op("createS", h=h, r=r, c=c, t=t, ch=ch, data="null", plain=1)
        if d is not None: self.op("fillS", h=h, d=d)
        return h
    def D(self, wd, ht, d=None):
        h = self.h("d"); bd = self.buf(1, d) if d is not None else "null"
        self.op("createD", h=h, wd=wd, ht=ht, data=bd); return h
    def text(self):
        out = ["prog " + self.name, "env place=%d fill=%d" % (self.place, self.fill)]
        for o in self.ops:
            out.append(o["op"] + "".join(" %s=%s" % (k.lstrip("_"), _txt([v] if o["op"] == "vec" and isinstance(v, list) else v)) for k, v in o.items() if k != "op" and not _skip(v)))
        return "\n".join(out) + "\n"
def _skip(v): return isinstance(v, dict) or (isinstance(v, list) and v and isinstance(v[0], dict))
def _txt(v):
    if isinstance(v, list): return ",".join(":".join(map(str, x)) if isinstance(x, list) else str(x) for x in v)
    if isinstance(v, str): return "".join(c if c.isalnum() or c in "._-/" else "%%%02x" % ord(c) for c in v)
    return str(v)

def envs(r):
    return r.choice([0, 1, 2, 3, 4]), r.choice([0, 255, 0xA5, 1, -1])

# ------------------------------------------------------------------ build and run
def build(mode="c"):
    out = tmp("build")
    p = subprocess.run(["bash", os.path.join(VERIF, "harness/build.sh"), out, mode], capture_output=True, text=True)
    if p.returncode != 0: raise Broken("build failed:\n" + p.stdout[-3000:] + p.stderr[-3000:])
    return os.path.join(out, "driver_" + mode)

_runno = [0]
def run(driver, progs, timeout=10, symbolize=0):
    """Execute the programs; returns one trace per program."""
    _runno[0] += 1
    d = tmp("run%d" % _runno[0]); os.makedirs(d)
    pf = os.path.join(d, "progs.txt")
    with open(pf, "w") as f:
        for k, p in enumerate(progs):
            p.idx = k
            f.write(p.text().replace("prog " + p.name, "prog %d" % k, 1))
    nsh = min(NCPU, max(1, len(progs)))
    procs = []
    for s in range(nsh):
        sd = os.path.join(d, "s%d" % s); os.makedirs(sd)
        procs.append(subprocess.Popen([driver, pf, os.path.join(d, "out%d" % s), sd, str(s), str(nsh), str(timeout)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="symbolize=%d" % symbolize)))
    for p in procs:
        _, err = p.communicate()
        if p.returncode != 0: raise Broken("driver failed: " + err.decode(errors="replace")[-2000:])
    traces = [None] * len(progs)
    for s in range(nsh):
        cur = None
        for line in open(os.path.join(d, "out%d" % s)):
            if line[0] == "P": cur = int(line[2:]); ev = []; began = None; done = False
            elif line[0] == "B": began = int(line[2:])
            elif line[0] == "E":
                n, js = line[2:].split(" ", 1); rec = json.loads(js)
                ev.append(dict(op=_pub(progs[cur].ops[int(n) - 1]), out="ok", ret=rec.get("ret", {"z": 0}), chg=rec["chg"], **{"del": rec["del"]})); began = None
            elif line[0] == "D": done = True
            elif line[0] == "X":
                kind, code = line[2:].split(); code = int(code)
                ep = os.path.join(d, "s%d/p%d/stderr" % (s, cur))
                err = open(ep, errors="replace").read() if os.path.exists(ep) else ""
                if kind == "exit" and code == 3: raise Broken("driver misuse: " + err[-500:])
                cut = kind == "exit" and code == 5      # an object an earlier call should have produced is not there
                if cut: pass
                elif not done:
                    if began is None: raise Broken("driver died outside a call: %s %s %s" % (line, err[-800:], progs[cur].ops[:3]))
                    if kind == "exit" and code == 1: out = "exit"
                    elif kind == "sig" and code in (14, 24): out = "hang"
                    else: out = "crash"
                    ev.append(dict(op=_pub(progs[cur].ops[began - 1]), out=out, ret={"z": 0}, chg=[], **{"del": []}))
                elif not (kind == "exit" and code == 77): raise Broken("unexpected end " + line)
                traces[cur] = dict(id=progs[cur].name, ev=ev, stderr=err[:3000], cut=cut)
    if any(t is None for t in traces): raise Broken("a program produced no trace")
    shutil.rmtree(d, ignore_errors=True)
    return traces
def _pub(o): return {k: v for k, v in o.items() if not k.startswith("_")}

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=NCPU, xmx="6g", extra=(), timeout=int(os.environ.get("TLC_TO","800"))):
    _runno[0] += 1
    meta = tmp("meta%d" % _runno[0]); os.makedirs(meta)
    e = dict(os.environ); e.update(env or {})
    cp = JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Dtlc2.tool.impl.Tool.probabilistic=false", "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr

_states = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")
def stats(out):
    m = _states.findall(out)
    return (0, 0) if not m else tuple(int(x.replace(",", "")) for x in m[-1])

def validate(items, module="Trace"):
    """items: recorded executions (or pairs of them, for Twin); returns (rejections {index: step}, transitions, states)."""
    chunks, cur, size = [], [], 0
    for k, t in enumerate(items):
        js = json.dumps(dict(a=t["a"], b=t["b"], at=t["at"]) if module == "Twin" else dict(ev=t["ev"]), separators=(",", ":"))
        if cur and size + len(js) > 12_000_000: chunks.append(cur); cur, size = [], 0
        cur.append((k, js)); size += len(js)
    if cur: chunks.append(cur)
    rej, gen, dist = {}, 0, 0
    for n, ch in enumerate(chunks):
        tf = tmp("trace%d_%d.ndjson" % (_runno[0], n))
        with open(tf, "w") as f: f.write("\n".join(j for _, j in ch) + "\n")
        rc, out = tlc(module + ".tla", "Trace.cfg", {"TRACE_FILE": tf})
        os.unlink(tf) if not _keep else None
        if rc != 0 or "Model checking completed. No error" not in out: raise Broken("TLC failed on traces:\n" + out[-4000:])
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', out): rej[ch[int(m.group(1)) - 1][0]] = int(m.group(2))
        g, s = stats(out); gen += g; dist += s
        # every event of every accepted trace is a state of its own: nothing was skipped
        want = sum((len(items[k]["a" if module == "Twin" else "ev"]) + 2) if k not in rej else rej[k] + 1 for k, _ in ch)
        if s != want: raise Broken("trace validation visited %d states, expected %d\n%s" % (s, want, out[-2000:]))
    if module == "Trace":
        for k, t in enumerate(items):
            if t["cut"] and k not in rej: raise Broken("program %s lost an object but its trace was accepted" % t["id"])
    return rej, gen, dist
