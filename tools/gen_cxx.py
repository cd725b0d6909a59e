"""Program generators for the C++ cube class (C21)."""
from hv import *
from gen_core import ILS, EXTRA, dims, hdr_text, _wavepos, conv_name
SAVABLE = [1, 2, 3, 4, 5, 12, 13]          # the ENVI driver knows these
NAMES = [("p", ""), ("p", ".img"), ("scene", ".dat"), ("a.b", ".c"), ("d.x/p", ""), ("d.x/q.r", ".raw"), ("dir/p", ".img"), ("x_1", ".bsq")]
class XP:
    """a program on cube objects that keeps track of what each object is"""
    def __init__(self, r, name): self.r, self.p, self.m = r, Prog(name, *envs(r)), {}; self.saved = {}
    def content(self, s, l, b, t, d, w):
        r = self.r
        return (self.p.buf(t, rnd_data(r, t, s * l * b), 1) if d else "null"), (self.p.buf(4, rnd_wave(r, b, True), 1) if w else "null")
    def new(self, v=None, t=None, f=None, dm=None):
        r = self.r; v = r.choice([0, 1, 2, 3, 3, 3]) if v is None else v
        s, l, b = dm or dims(r); t = t or r.choice(TYPES); f = f or r.choice(ILS); h = self.p.h("x")
        bd, bw = self.content(s, l, b, t, v > 1, v > 2)
        self.p.op("newX", h=h, v=v, s=s, l=l, b=b, t=t, fm=f, data=bd, w=bw); self.m[h] = None if v == 0 else (s, l, b, t, f); return h
    def full(self): return [h for h, m in self.m.items() if m]
    def step(self):
        r, p, m = self.r, self.p, self.m; c = r.random(); fu = self.full()
        if not m or c < .1: self.new(); return
        h = r.choice(sorted(m)); x = r.choice(fu) if fu else None
        if c < .18:
            v = r.choice([0, 1, 2, 3, 4]); 
            if v == 0 and not m[h]: v = 2
            s, l, b = dims(r); t = r.choice(TYPES); f = r.choice(ILS); bd, bw = self.content(s, l, b, t, v > 2, v > 3)
            p.op("createX", h=h, v=v, s=s, l=l, b=b, t=t, fm=f, data=bd, w=bw); m[h] = m[h] if v == 0 else (s, l, b, t, "bsq" if v == 1 else f)
        elif c < .27: g = p.h("x"); p.op("copyX", h=h, g=g); m[g] = m[h]
        elif c < .32: p.op("emptyX", h=h)
        elif c < .37: p.op("releaseX", h=h); m[h] = None
        elif c < .42: p.op("delX", h=h); del m[h]
        elif not x: self.new(3)
        elif c < .48:
            s, l, b, t, f = m[x]; n = r.choice([0, 0, s * l * b, r.randint(1, s * l * b)]); d = p.buf(t, rnd_data(r, t, n or s * l * b)) if r.random() < .9 else "null"
            p.op("setdataX", h=x, data=d, n=n)
            if r.random() < .3: p.op("freebuf", h=d) if d != "null" else None
        elif c < .53:
            b = m[x][2]; n = r.choice([0, 0, b, r.randint(1, b)]); p.op("setwaveX", h=x, w=p.buf(4, rnd_wave(r, n or b, True)) if r.random() < .9 else "null", n=n)
        elif c < .65:
            to = r.choice(ILS); frm = m[x][4]
            if frm == to:
                frm = r.choice([i for i in ILS if i != to])
                if frm == "bil": p.op("emptyX", h=x); return     # bil2x takes bil objects only
            g = p.h("x"); p.op("convX", fn=conv_name(frm, to), h=x, g=g); m[g] = m[x][:4] + (to,)
        elif c < .75: to = r.choice(ILS); p.op("toX", h=x, fm=to); m[x] = m[x][:4] + (to,)
        elif c < .82:
            s, l, b, t, f = m[x]; rg = [0] * 6
            for k, n in enumerate((l, s, b)): rg[k] = r.choice([0, r.randint(0, n - 1)]); rg[k + 3] = r.choice([n, r.randint(rg[k] + 1, n)])
            g = p.h("x"); p.op("rangeX", h=x, g=g, rg=rg); m[g] = (rg[4] - rg[1], rg[3] - rg[0], rg[5] - rg[2], t, f)
        elif c < (.93 if self.saved else .97):
            stem, ext = r.choice(NAMES)
            ok = [q for q in m if not m[q] or m[q][3] in SAVABLE]
            if not ok: return
            q = r.choice(ok); nul = int(r.random() < .1); k = stem + ext; fe = ("f_" + k.replace("/", "-"), "e_" + stem.replace("/", "-"))
            if any(s2 == stem and e2 != ext for s2, e2 in self.saved): return      # one image per header
            p.op("saveX", h=q, stem=stem, ext=ext, f=fe[0], e=fe[1], null=nul)
            if m[q] and not nul: self.saved[(stem, ext)] = (fe, m[q])
        else:
            if not self.saved or r.random() < .15:
                g = r.choice(sorted(m) + [p.h("x")]); p.op("openX" if g in m else "readX", h=g, stem="nothere", ext=".img", f="nf", e="ne"); m[g] = None; return
            (stem, ext), (fe, mm) = r.choice(sorted(self.saved.items())); g = r.choice(sorted(m) + [p.h("x")]); n = g not in m
            if r.random() < .15: p.op("cutfile", f=fe[0], n=r.choice([0, r.randint(0, mm[0] * mm[1] * mm[2])])); self.saved.pop((stem, ext))
            if r.random() < .5: p.op("readX" if n else "openX", h=g, stem=stem, ext=ext, f=fe[0], e=fe[1]); m[g] = mm
            else:
                s, l, b, t, f = mm; s2, l2, b2 = r.choice([(s, l, b), (l, s, b), (b, l, s), (s, l, 1), (s, l, b + 1), (s + 2, l, b)]); f2 = r.choice(ILS)
                p.op("readsizeX" if n else "opensizeX", h=g, stem=stem, ext=ext, f=fe[0], s=s2, l=l2, b=b2, t=t, fm=f2); m[g] = (s2, l2, b2, t, f2)
def c21(r, n):
    out = []
    for k in range(n):
        x = XP(r, "c21-%d" % k)
        x.new(3, TYPES[k % 9], ILS[k // 9 % 3])
        for _ in range(r.choice([1, 3, 6, 10])): x.step()
        x.p.end(); out.append(x.p)
    # every format pair, every savable type: a cube there and back
    for k, t in enumerate(SAVABLE):
        for f in ILS:
            x = XP(r, "c21-save-%d-%s" % (t, f)); h = x.new(3, t, f); stem, ext = NAMES[(k + len(f)) % len(NAMES)]
            x.p.op("saveX", h=h, stem=stem, ext=ext, f="f", e="e", null=0); x.p.op("readX", h="y", stem=stem, ext=ext, f="f", e="e"); x.p.op("openX", h=h, stem=stem, ext=ext, f="f", e="e"); x.p.end(); out.append(x.p)
    for a in ILS:
        for b in ILS:
            for t in r.sample(TYPES, 3):
                x = XP(r, "c21-conv-%s%s%d" % (a, b, t)); h = x.new(3, t, a)
                if a != b: x.p.op("convX", fn=conv_name(a, b), h=h, g="g")
                x.p.op("toX", h=h, fm=b); x.p.op("toX", h=h, fm=a); x.p.end(); out.append(x.p)
    def one(name, f, end=0): x = XP(r, "c21-" + name); f(x); x.p.end(end); out.append(x.p)
    for k, (s, l, b, t, f) in enumerate([(0, 1, 1, 1, "bsq"), (1, 0, 2, 1, "bil"), (2, 2, 0, 4, "bip"), (-1, 2, 2, 1, "bsq"), (2, -2, 2, 1, "bil"), (2, 2, -3, 5, "bil"), (-2, -2, 1, 1, "bip"), (2, 2, 2, 0, "bsq"), (2, 2, 2, 6, "bsq"), (2, 2, 2, 9, "bil"), (2, 2, 2, 16, "bip"), (2, 2, 2, 1, "7"), (2, 2, 2, 1, "-1")]):
        for q in range(8):
            def bad(x):
                x.new(2, dm=(2, 1, 3)); o = dict(s=s, l=l, b=b, t=t, fm=f); bd = x.p.buf(1, [1] * 8, 1) if q in (2, 5, 6) else "null"; bw = x.p.buf(4, [ef(1.0)] * 3, 1) if q == 6 else "null"
                if q < 2 or q == 6: x.p.op("newX", h="q", v=(1, 2, 0, 0, 0, 0, 3)[q], data=bd if q else "null", w=bw, **o)
                elif q < 5: x.p.op("createX", h=sorted(x.m)[0], v=q, data=bd if q == 3 else "null", w="null", **o)
                elif q == 5: x.p.op("readsizeX", h="q", stem="p", ext="", f="nf", **o)
                else: x.p.op("opensizeX", h=sorted(x.m)[0], stem="p", ext="", f="nf", **o)
            one("bad%d-%d" % (k, q), bad)
    for a in ILS:
        for b in ILS:
            third = [i for i in ILS if i not in (a, b)]
            if a != b: one("refuse-%s%s" % (a, b), lambda x: x.p.op("convX", fn=conv_name(a, b), h=x.new(3, f=third[0], dm=(2, 3, 2)), g="g"))
    one("tobad", lambda x: x.p.op("toX", h=x.new(3), fm="9"))
    for fn in ("bil2bsq", "bil2bip"): one("empty-" + fn, lambda x: x.p.op("convX", fn=fn, h=x.new(0), g="g"))
    one("empty0", lambda x: x.p.op("createX", h=x.new(0), v=0, s=0, l=0, b=0, t=0, fm="bsq", data="null", w="null"))
    def twice(x): h = x.new(3); x.p.op("releaseX", h=h); x.p.op("releaseX", h=h); x.p.op("emptyX", h=h); x.p.op("copyX", h=h, g="g"); x.p.op("saveX", h=h, stem="p", ext="", f="f", e="e", null=0)
    one("twice", twice, 1)
    for rg in [[0, 0, 0, 0, 1, 1], [0, 0, 0, 3, 3, 2], [0, 0, 0, 2, 4, 2], [0, 0, 0, 2, 3, 3], [-1, 0, 0, 2, 3, 2], [0, -1, 0, 1, 1, 1], [0, 0, -1, 1, 1, 1], [1, 0, 0, 1, 3, 2], [0, 2, 0, 2, 1, 2], [0, 0, 1, 2, 3, 1]]:
        one("range" + "_".join(map(str, rg)), lambda x: x.p.op("rangeX", h=x.new(3, dm=(3, 2, 2)), g="g", rg=rg))
    one("range-empty", lambda x: x.p.op("rangeX", h=x.new(0), g="g", rg=[0, 0, 0, 1, 1, 1]))
    def nohdr(x): x.p.op("readtextX", h="q", path="im", t=1, d=[1, 2], img=1, hdr=0, lines=[], _text="")
    one("nohdr", nohdr)
    one("noimg", lambda x: x.p.op("readtextX", h="q", path="im", t=1, d=[1, 2], img=0, hdr=1, lines=[], _text="ENVI\n"), 1)
    # images and headers that cannot be created
    def unsaved(x, stem, how): h = x.new(3, SAVABLE[0]); x.p.op("saveX", h=h, stem=stem, ext=".img", f="f", e="e", null=0, **{how: 1}); x.p.op("emptyX", h=h); x.p.op("copyX", h=h, g="g")
    one("nodir", lambda x: unsaved(x, "a/b/p", "nodir"), 1)
    one("nodir-long", lambda x: unsaved(x, "x" * 300, "nodir"), 1)
    one("blocked-hdr", lambda x: unsaved(x, "p", "nohdr"), 1)
    one("blocked-hdr-in", lambda x: unsaved(x, "d.x/p", "nohdr"), 1)
    # headers cut off after some of their lines, or in the middle of the list of wavelengths
    base = [dict(f="samples", v=2), dict(f="lines", v=1), dict(f="bands", v=2), dict(f="data type", v=1), dict(f="interleave", il="bil")]
    full = base + [dict(f="wavelength", w=[ef(500.0), ef(600.5)], _w=[500.0, 600.5])]
    def cut(name, lines, txt):
        x = XP(r, "c21-" + name); x.p.op("readtextX", h="q", path="im", t=1, d=[1, 2, 3, 4], img=1, hdr=1, lines=[{a: z for a, z in y.items() if a[0] != "_"} for y in lines], _text=txt); x.p.end(0); out.append(x.p)
    for c in range(6):
        for q in (full[:c], full[::-1][:c]): cut("cut%d%s" % (c, q[:1] == full[:1]), q, hdr_text(random.Random(c), q))
    for keep, ws in [("wavelength = {500.0, 600.5", [500.0, 600.5]), ("wavelength = {500.0,", [500.0]), ("wavelength = {\n 500.0", [500.0]), ("wavelength = {", []), ("wavelength = {500.0,\n", [500.0]), ("wavelength", None)]:
        cut("cutlist%d" % len(keep), base + ([dict(f="wavelength", w=[ef(v) for v in ws])] if ws is not None else []), hdr_text(random.Random(1), base).rstrip("\n") + "\n" + keep)
    for k in range(n // 3):      # headers of any origin
        x = XP(r, "c21-hdr%d" % k); s, l, b = dims(r); t = TYPES[k % 9]; il = r.choice(ILS)
        xs = [round(400 + 5 * i + r.random(), 2) for i in range(b)] if r.random() < .5 else [float(r.randint(300, 2600)) for _ in range(b)]
        ln = [dict(f="samples", v=s), dict(f="lines", v=l), dict(f="bands", v=b), dict(f="data type", v=t), dict(f="interleave", il=il)]
        if r.random() < .85: ln.append(dict(f="wavelength", w=None, _w=(xs + xs[:2])[:b + 1] if k % 17 == 5 else xs[:r.randint(1, b)] if k % 17 == 9 else xs))
        if r.random() < .65: r.shuffle(ln)
        for e in r.sample(EXTRA, r.choice([0, 0, 1, 2, 4, 8])): ln.insert(r.randint(0, len(ln)), dict(f="other", _raw=e))
        txt = hdr_text(r, ln)
        for y in ln:
            if y["f"] == "wavelength":
                body = txt[_wavepos(txt):]; body = body[body.index("{") + 1:body.index("}")]; y["w"] = [ef(f32(float(q))) for q in body.replace("\n", " ").split(",")]
        x.p.op("readtextX", h="q", path="im", t=t, d=rnd_data(r, t, s * l * b if k % 6 else r.randint(0, s * l * b)), img=1, hdr=1, lines=[{a: z for a, z in y.items() if not a.startswith("_")} for y in ln], _text=txt)
        x.p.op("copyX", h="q", g="q2"); x.p.op("delX", h="q"); x.p.end(); out.append(x.p)
    return out
