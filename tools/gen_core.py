"""Program generators for the core of the library (C01-C10)."""
from hv import *
ILS = ["bsq", "bil", "bip"]
def dims(r, k=None):
    """shapes: mostly small and lopsided, some with a long axis"""
    c = r.random() if k is None else k
    if c < .55: return r.randint(1, 6), r.randint(1, 6), r.randint(1, 6)
    if c < .75: return r.choice([(1, 1, r.randint(1, 40)), (r.randint(1, 40), 1, 1), (1, r.randint(1, 40), 1), (1, r.randint(2, 9), r.randint(2, 9)), (r.randint(2, 9), 1, r.randint(2, 9))])
    if c < .93: return r.randint(2, 12), r.randint(2, 11), r.randint(2, 13)
    return r.choice([(2, 1, 260), (1, 2, 300), (257, 2, 1), (3, 258, 1), (2, 3, 129), (1, 129, 2), (17, 16, 3)])
def anyH(p, r, t=None, il=None, io=False, dm=None):
    s, l, b = dm or dims(r); t = t or r.choice(TYPES); il = il or r.choice(ILS)
    d = rnd_data(r, t, s * l * b); w = rnd_wave(r, b, io)
    h = p.H(s, l, b, t, il, d, w)
    return h, (s, l, b, t, il)
def conv_name(a, b): return a + "2" + b

def c01(r, n):
    out = []
    for k in range(n):
        p = Prog("c01-%d" % k, *envs(r))
        for _ in range(r.randint(1, 3)):
            s, l, b = dims(r); t = TYPES[k % 9] if r.random() < .6 else r.choice(TYPES); il = r.choice(ILS); m = r.randint(0, 4)
            d = rnd_data(r, t, s * l * b) if m in (0, 1) else None
            w = rnd_wave(r, b) if m in (0, 2) else None
            h = p.H(s, l, b, t, il, d, w, plain=1 if m == 3 else 0)
            if r.random() < .3: p.op("emptyH", h=h)
            if r.random() < .4: p.op("showinfoH", h=h)
            if r.random() < .3: p.op("deleteH", h=h)
        if r.random() < .2: p.op("emptyH", h="null")
        if r.random() < .2: p.op("deleteH", h="null")
        if r.random() < .1: p.op("showinfoH", h="null")
        p.end(); out.append(p)
    bad = [(0, 2, 2, 1), (2, 0, 2, 1), (2, 2, 0, 4), (-1, 2, 2, 1), (2, -3, 2, 2), (2, 2, -1, 5), (-1, -2, 3, 1), (-2, 3, -2, 1), (2, -2, -2, 4), (0, 0, 0, 1), (2, 2, 2, 0), (2, 2, 2, 6), (2, 2, 2, 9), (2, 2, 2, 7), (2, 2, 2, 8), (2, 2, 2, 10), (2, 2, 2, 11), (1, 1, 1, 16), (2, 3, 1, -1), (2, 2, 2, 100)]
    for k, (s, l, b, t) in enumerate(bad):
        p = Prog("c01-bad%d" % k, *envs(r)); p.H(2, 1, 2, 1, "bil", [1, 2, 3, 4], None)
        p.H(s, l, b, t, r.choice(ILS), None, None, plain=k % 2); p.end(); out.append(p)
    return out
def c02(r, n):
    out = []
    for k in range(n):
        p = Prog("c02-%d" % k, *envs(r)); il = ILS[k % 3]
        h, (s, l, b, t, _) = anyH(p, r, TYPES[(k // 3) % 9] if k < 54 else None, il)
        cur = {h: il}
        for _ in range(r.choice([1, 2, 3, 5])):
            x = r.choice(list(cur)); c = r.random()
            if c < .55:
                to = r.choice(ILS); frm = cur[x]
                if frm == to: frm = r.choice([i for i in ILS if i != to])
                g = p.h("h"); p.op("convH", fn=conv_name(frm, to), h=x, g=g); cur[g] = to
            elif c < .9:
                to = r.choice(ILS); p.op("convert2H", h=x, il=to); cur[x] = to
            elif len(cur) > 1: p.op("deleteH", h=x); del cur[x]
        p.end(); out.append(p)
    for frm in ILS:
        for to in ILS:
            if frm == to: continue
            third = [i for i in ILS if i not in (frm, to)][0]
            p = Prog("c02-refuse-%s%s" % (frm, to)); h, _ = anyH(p, r, il=third, dm=(2, 3, 2)); p.op("convH", fn=conv_name(frm, to), h=h, g="g"); p.end(); out.append(p)
            p = Prog("c02-null-%s%s" % (frm, to)); p.op("convH", fn=conv_name(frm, to), h="null", g="g"); p.end(); out.append(p)
    for to in ILS:
        p = Prog("c02-null-" + to); p.op("convert2H", h="null", il=to); p.end(); out.append(p)
    return out
def box(r, s, l, b):
    c = r.random()
    def iv(n):
        if c < .15: return 0, n
        x = r.randint(0, n - 1); return x, r.randint(x + 1, n)
    (r0, r1), (c0, c1), (b0, b1) = iv(l), iv(s), iv(b)
    return [r0, c0, b0, r1, c1, b1]
def c03(r, n):
    out = []
    for k in range(n):
        p = Prog("c03-%d" % k, *envs(r)); h, (s, l, b, t, il) = anyH(p, r, il=ILS[k % 3], t=TYPES[(k // 3) % 9], dm=None if k % 4 else (r.randint(2, 7), r.randint(2, 7), r.randint(2, 7)))
        for _ in range(r.randint(1, 3)):
            g = p.h("h"); rg = box(r, s, l, b); p.op("rangeH", h=h, g=g, rg=rg)
            if r.random() < .3: h, s, l, b = g, rg[4] - rg[1], rg[3] - rg[0], rg[5] - rg[2]
        p.end(); out.append(p)
    bad = []
    for ax in range(3):
        n3 = (3, 4, 2)  # lines, samples, bands
        base = [0, 0, 0, 3, 4, 2]
        for (a, z) in [(1, 1), (2, 1), (0, n3[ax] + 1), (-1, 1), (n3[ax], n3[ax] + 1), (0, n3[ax] + 7)]:
            q = list(base); q[ax] = a; q[3 + ax] = z; bad.append(q)
    for k, q in enumerate(bad):
        for il in ILS:
            p = Prog("c03-bad%d%s" % (k, il)); h, _ = anyH(p, r, il=il, dm=(4, 3, 2), t=r.choice([1, 4])); p.op("rangeH", h=h, g="g", rg=q); p.end(); out.append(p)
    return out
def c04(r, n):
    out = []
    for k in range(n):
        p = Prog("c04-%d" % k, *envs(r)); t = TYPES[k % 9]
        if k % 2 == 0:
            dm = dims(r); h, sh = anyH(p, r, t, dm=dm); g = p.h("h"); p.op("copyH", h=h, g=g); hs = [h, g]
            for _ in range(r.randint(1, 5)):
                c = r.random(); x = r.choice(hs)
                if c < .3: p.op("fillH", h=x, d=rnd_data(r, t, sh[0] * sh[1] * sh[2]))
                elif c < .5: y = p.h("h"); p.op("copyH", h=x, g=y); hs.append(y)
                elif c < .65: p.op("copytoH", h=x, g=r.choice(hs))
                elif c < .8:
                    y, _ = anyH(p, r, t, dm=dm); p.op("copytoH", h=x, g=y); hs.append(y)
                elif c < .9:
                    y, _ = anyH(p, r, dm=(r.randint(1, 4), r.randint(1, 4), dm[2])); p.op("copywaveH", h=x, g=y)
                elif len(hs) > 1: p.op("deleteH", h=x); hs.remove(x)
        else:
            R, Cc, ch = r.randint(1, 9), r.randint(1, 9), r.choice([1, 1, 2, 3, 4])
            d = rnd_data(r, t, R * Cc * ch)
            if k % 3 == 0:
                b = p.buf(t, d, heap=1); h = p.h("s"); p.op("createS", h=h, r=R, c=Cc, t=t, ch=ch, data=b, plain=0)
            else: h = p.S(R, Cc, t, ch, d)
            hs = [h]
            for _ in range(r.randint(1, 4)):
                x = r.choice(hs); c = r.random()
                if c < .5: y = p.h("s"); p.op("copyS", h=x, g=y); hs.append(y)
                elif c < .8: p.op("fillS", h=x, d=rnd_data(r, t, R * Cc * ch))
                elif len(hs) > 1: p.op("deleteS", h=x); hs.remove(x)
        p.end(); out.append(p)
    for k, (a, b, ta, tb) in enumerate([((2, 3, 2), (3, 2, 2), 1, 1), ((2, 3, 2), (2, 3, 3), 2, 2), ((2, 3, 2), (2, 4, 2), 4, 4), ((2, 3, 2), (3, 3, 2), 1, 1), ((2, 3, 2), (2, 3, 2), 2, 12), ((2, 3, 2), (2, 3, 2), 3, 4), ((4, 3, 2), (2, 3, 4), 1, 1)]):
        p = Prog("c04-bad%d" % k); x, _ = anyH(p, r, ta, dm=a); y, _ = anyH(p, r, tb, dm=b); p.op("copytoH", h=x, g=y); p.end(); out.append(p)
    for k, (x, y) in enumerate([("null", 1), (1, "null"), ("null", "null")]):
        for op in ("copytoH", "copywaveH"):
            p = Prog("c04-null%d%s" % (k, op)); h, _ = anyH(p, r); p.op(op, h=h if x == 1 else x, g=h if y == 1 else y); p.end(); out.append(p)
    p = Prog("c04-copynull"); p.op("copyH", h="null", g="g"); p.op("emptyH", h="null"); p.end(); out.append(p)
    p = Prog("c04-wavebad"); x, _ = anyH(p, r, dm=(2, 2, 3)); y, _ = anyH(p, r, dm=(2, 2, 4)); p.op("copywaveH", h=x, g=y); p.end(); out.append(p)
    return out
def io_wave(r, b):
    c = r.random()
    if c < .3: return [[r.randint(0, 1 << 20) * 2 + 1, -6] if r.random() < .8 else [0, 0] for _ in range(b)]
    if c < .8: return [ef(f32(r.uniform(33, 3000))) for _ in range(b)]
    if c < .9: return [ef(f32(r.uniform(33, 9e5))) for _ in range(b)]
    return [ef(f32(400 + 2.5 * k)) for k in range(b)]
def canon(w):
    out = []
    for m, e in w:
        while m and m % 2 == 0: m //= 2; e += 1
        out.append([m, e])
    return out
def ioH(p, r, t=None, dm=None, il=None):
    s, l, b = dm or dims(r); t = t or r.choice(TYPES); il = il or r.choice(ILS)
    w = [ef(math.ldexp(m, e)) for m, e in io_wave(r, b)]
    # keep to the domain where six decimals determine the float
    w = [x if (x == [0, 0] or x[1] >= -6 or abs(math.ldexp(*x)) >= 32) else ef(512.25) for x in w]
    d = rnd_data(r, t, s * l * b)
    if t == 1 and r.random() < .5: d = [r.choice([10, 13, 26, 0, 255, 4]) for _ in d]
    return p.H(s, l, b, t, il, d, w if r.random() < .9 else None), (s, l, b, t, il)
def c05(r, n):
    out = []
    for k in range(n):
        p = Prog("c05-%d" % k, *envs(r)); t = TYPES[k % 9]
        h, (s, l, b, t, il) = ioH(p, r, t, dm=[(1, 1, 300), (2, 1, 130), (1, 2, 220)][k % 3] if k % 12 == 0 else None)
        paths = ["a", "img.raw", "x_1.v2.dat", "d" * 60]; path = paths0 = r.choice(paths); cut = 0
        def save(h, path): p.op("saveH", h=h, path=path, f="f_" + path, e="e_" + path)
        save(h, path)
        for _ in range(r.randint(1, 4)):
            c = r.random()
            if c < .5: g = p.h("h"); p.op("loadH", h=g, path=path, f="f_" + path, e="e_" + path)
            elif c < .7: h2, _ = ioH(p, r); save(h2, path); t = None
            elif c < .76 and t and path == paths0 and not cut: p.op("cutfile", f="f_" + path, n=r.choice([0, s * l * b - 1, r.randint(0, s * l * b)])); cut = 1
            elif c < .8: g = p.h("h"); p.op("loadH", h=g, path=path, f="f_" + path, e="e_" + path); path = r.choice(paths); save(g, path)
            elif c < .9 and t: g = p.h("h"); p.op("loadsizeH", h=g, path=path, f="f_" + path, s=s, l=l, b=b, t=t, il=r.choice(ILS))
            else: g = p.h("h"); p.op("loadH", h=g, path="missing", f="fx", e="ex")
        p.op("loadH", h=p.h("h"), path=path, f="f_" + path, e="e_" + path)
        p.end(); out.append(p)
    for k in range(max(10, n // 12)):
        p = Prog("c05-size%d" % k, *envs(r)); s, l, b = dims(r); t = TYPES[k % 9]
        p.op("putfile", path="raw", f="f", t=t, d=rnd_data(r, t, max(0, s * l * b + r.choice([0, 3, -1, -r.randint(1, s * l * b)])))); p.op("loadsizeH", h="h", path="raw", f="f", s=s, l=l, b=b, t=t, il=r.choice(ILS)); p.op("deleteH", h="h"); p.end(); out.append(p)
    for k, (s, l, b) in enumerate([(0, 1, 1), (1, 0, 1), (1, 1, 0), (-1, -1, 1)]):
        p = Prog("c05-badsize%d" % k); p.op("putfile", path="raw", f="f", t=1, d=[1, 2]); p.op("loadsizeH", h="h", path="raw", f="f", s=s, l=l, b=b, t=1, il="bsq"); p.end(); out.append(p)
    p = Prog("c05-missing"); p.op("loadsizeH", h="h", path="nope", f="f", s=1, l=1, b=1, t=1, il="bsq"); p.end(); out.append(p)
    for k in range(20):
        p = Prog("c05-hdr%d" % k, *envs(r)); b = r.choice([1, 2, 5, 64, 200]); w = [ef(f32(r.uniform(40, 4000))) for _ in range(b)]
        bw = p.buf(4, w) if k % 3 else "null"
        p.op("writehdr", path="z", e="e", s=r.randint(1, 99999), l=r.randint(1, 99999), b=b, t=r.choice(TYPES), il=r.choice(ILS), w=bw); p.end(); out.append(p)
    for k, nm in enumerate(["gone/a", "gone/deeper/b.img", "x" * 300]):
        p = Prog("c05-nodir%d" % k, *envs(r)); h, _ = ioH(p, r); p.op("saveH", h=h, path=nm, f="f", e="e", nodir=1); p.end(0); out.append(p)
        p = Prog("c05-nodirh%d" % k, *envs(r)); p.op("writehdr", path=nm, e="e", s=2, l=2, b=2, t=1, il="bsq", w="null", nodir=1); p.end(0); out.append(p)
    p = Prog("c05-nullsave"); p.op("saveH", h="null", path="q", f="f", e="e")
    return out
def fmt_wave(r, x):
    return r.choice(["%s" % repr(x), "%.6f" % x, "%f" % x])
def hdr_text(r, lines):
    out = ["ENVI" + r.choice(["", "", " "])]
    for ln in lines:
        f = ln["f"]; eq = r.choice([" = ", " = ", "=", "= ", " =", "   =   ", "\t=\t"]); lead = r.choice(["", "", "", " ", "\t"]); tail = r.choice(["", "", "", " ", "  "])
        if f == "wavelength":
            sep = r.choice([",", ", ", " , ", ",\n", ", \n "]); per = r.choice([0, 0, 3, 7])
            xs = ln["_w"]; parts = [fmt_wave(r, x) for x in xs]
            if per: body = ",\n ".join(", ".join(parts[i:i + per]) for i in range(0, len(parts), per))
            else: body = sep.join(parts)
            open_ = r.choice(["{", "{ ", "{\n", "{ \n", "{\n "]); close = r.choice(["}", " }", "\n}"])
            if f == "wavelength": out.append(lead + "wavelength" + eq + open_ + body + close + tail)
        elif f == "interleave": out.append(lead + f + eq + ln["il"] + tail)
        elif f in ("samples", "lines", "bands", "data type"): out.append(lead + f + eq + str(ln["v"]) + tail)
        else: out.append(ln["_raw"])
    return "\n".join(out) + r.choice(["\n", "\n", ""])
EXTRA = ["description = {\n  Some scene [lines = 9],\n  taken }", "data ignore value = -9999", "data gain values = {1, 2}", "header offset = 0", "file type = ENVI Standard", "sensor type = Unknown", "byte order = 0", "band names = {\n Band 1,\n Band 2}", "bands per file = 7", "samples per line = 1", "lines skipped = 3", "interleave mode = none", "wavelength units = Nanometers", "x start = 1", "default bands = {1,2,3}", "; a comment", "", "data = 3", "d = 1", "line = 5", "b = 2", "fwhm = {1.0, 2.0}", "map info = {UTM, 1, 1}", "z plot titles = {samples = 3, lines}", "reflectance scale factor = 10000", "original samples = 77", "wavelength source = lab", "default stretch = 0.0 255.0 linear", "acquisition time = 2020-01-01T00:00:00Z"]
def c06(r, n):
    out = []
    for k in range(n):
        p = Prog("c06-%d" % k, *envs(r)); s, l, b = dims(r); t = TYPES[k % 9]; il = r.choice(ILS)
        if k % 10 == 3: s, l, b = 1, 1, r.choice([150, 260, 400])
        c = r.random()
        if c < .4: ws = [round(400 + 5 * i + r.random(), 2) for i in range(b)]
        elif c < .6: ws = [r.randint(300, 2600) for i in range(b)]
        elif c < .8: ws = [f32(r.uniform(300, 2500)) for i in range(b)]
        else: ws = [round(r.uniform(0.35, 2.5), 5) for i in range(b)]
        xs = [float(w) if not isinstance(w, int) else w for w in ws]
        ln = [dict(f="samples", v=s), dict(f="lines", v=l), dict(f="bands", v=b), dict(f="data type", v=t), dict(f="interleave", il=il)]
        if r.random() < .85: ln.append(dict(f="wavelength", w=None, _w=(xs + xs[:2])[:b + 1] if k % 17 == 5 else xs[:r.randint(1, b)] if k % 17 == 9 else xs))
        std = r.random() < .35
        if not std: r.shuffle(ln)
        for e in r.sample(EXTRA, r.choice([0, 0, 1, 2, 4, 8])): ln.insert(r.randint(0, len(ln)), dict(f="other", _raw=e))
        st = r.getstate(); txt = hdr_text(r, ln)
        # the value each written decimal denotes (decimal conversion is an environment primitive)
        for x in ln:
            if x["f"] == "wavelength":
                import re as _re
                body = txt[_wavepos(txt):]; body = body[body.index("{") + 1:body.index("}")]
                x["w"] = [ef(f32(float(q))) for q in body.replace("\n", " ").split(",")]
        pub = [{a: z for a, z in x.items() if not a.startswith("_")} for x in ln]
        p.op("loadtext", h="h", path="im", t=t, d=rnd_data(r, t, s * l * b if k % 6 else r.randint(0, s * l * b)), img=1, hdr=1, lines=pub, _text=txt)
        p.op("deleteH", h="h"); p.end(); out.append(p)
    base = [dict(f="samples", v=2), dict(f="lines", v=1), dict(f="bands", v=2), dict(f="data type", v=1), dict(f="interleave", il="bsq")]
    for im, hd in [(0, 1), (1, 0), (0, 0)]:
        p = Prog("c06-miss%d%d" % (im, hd)); p.op("loadtext", h="h", path="im", t=1, d=[1, 2, 3, 4], img=im, hdr=hd, lines=base, _text=hdr_text(random.Random(1), base)); p.end(); out.append(p)
    # a header cut off after a number of its lines, or in the middle of its list of wavelengths
    full = base + [dict(f="wavelength", w=[ef(500.0), ef(600.5)], _w=[500.0, 600.5])]
    for cutn in range(6):
        for perm in (0, 1):
            q = full[:] if not perm else full[::-1]
            q = [x for x in q[:cutn]]; txt = hdr_text(random.Random(cutn), q)
            p = Prog("c06-cut%d%d" % (cutn, perm)); p.op("loadtext", h="h", path="im", t=1, d=[1, 2, 3, 4], img=1, hdr=1, lines=[{a: z for a, z in x.items() if a[0] != "_"} for x in q], _text=txt); p.end(0); out.append(p)
    for keep, ws in [("wavelength = {500.0, 600.5", [500.0, 600.5]), ("wavelength = {500.0,", [500.0]), ("wavelength = {\n 500.0", [500.0]), ("wavelength = {", []), ("wavelength = {}\n", []), ("wavelength = {500.0,\n", [500.0]), ("wavelength = ", None), ("wave", None), ("wavelength", None)]:
        q = base + ([dict(f="wavelength", w=[ef(x) for x in ws])] if ws is not None else []); txt = hdr_text(random.Random(1), base).rstrip("\n") + "\n" + keep
        p = Prog("c06-cutlist%d" % len(keep)); p.op("loadtext", h="h", path="im", t=1, d=[1, 2, 3, 4], img=1, hdr=1, lines=q, _text=txt); p.end(0); out.append(p)
    for f, v in [("samples", 0), ("lines", 0), ("bands", 0), ("data type", 6), ("data type", 9), ("samples", -2)]:
        q = [dict(x, v=v) if x["f"] == f else x for x in base]
        p = Prog("c06-bad%s%d" % (f.replace(" ", ""), v)); p.op("loadtext", h="h", path="im", t=1, d=[1, 2, 3, 4], img=1, hdr=1, lines=q, _text=hdr_text(random.Random(1), q)); p.end(0); out.append(p)
    return out
def _wavepos(txt):
    import re as _re
    return _re.search(r"^[ \t]*wavelength[ \t]*=", txt, _re.M).start()
def c07(r, n):
    out = []
    for k in range(n):
        p = Prog("c07-%d" % k, *envs(r)); t = TYPES[k % 9]
        c = k % 3
        if c == 0:
            h, (s, l, b, t, il) = anyH(p, r, t, "bsq")
            for _ in range(r.randint(1, 4)):
                band = r.randint(1, b)
                if r.random() < .5:
                    t2 = r.choice([x for x in TYPES if ESZ[x] >= ESZ[t]]) if r.random() < .4 else t
                    R, Cc = (l, s) if r.random() < .6 else (s + r.randint(0, 2), l + r.randint(0, 2))
                    g = p.S(R, Cc, t2, 1, rnd_data(r, t2, R * Cc)); p.op("band2S", h=h, g=g, b=band)
                    if r.random() < .5: p.op("S2band", h=h, g=g, b=r.randint(1, b))
                else:
                    g = p.S(l, s, t, 1, rnd_data(r, t, s * l)); p.op("S2band", h=h, g=g, b=band)
        elif c == 1:
            h, (s, l, b, t, il) = anyH(p, r, t); n3 = s * l * b
            divs = [q for q in range(1, n3 + 1) if n3 % q == 0]; R = r.choice(divs)
            p.op("reshape", h=h, g="g", r=R, c=n3 // R)
        else:
            h, (s, l, b, t, il) = anyH(p, r, t); n3 = s * l * b
            for _ in range(r.randint(1, 3)):
                for _try in range(20):
                    dm = (r.randint(1, s), r.randint(1, l), r.randint(1, b))
                    if r.random() < .4: dm = (dm[0] * dm[1], 1, dm[2])
                    if dm[0] * dm[1] * dm[2] <= n3: break
                else: dm = (1, 1, 1)
                g, _ = anyH(p, r, t, dm=dm); p.op("splice", h=h, g=g, at=r.choice([0, n3 - dm[0] * dm[1] * dm[2], r.randint(0, n3 - dm[0] * dm[1] * dm[2])]))
        p.end(); out.append(p)
    def case(name, f):
        p = Prog("c07-" + name); f(p); p.end(0); out.append(p)
    for b in (0, -1, 4, 5):
        def f(p, b=b): h, _ = anyH(p, r, 2, "bsq", dm=(3, 2, 3)); g = p.S(2, 3, 2, 1, rnd_data(r, 2, 6)); p.op("S2band", h=h, g=g, b=b)
        case("putband%d" % b, f)
        def f(p, b=b): h, _ = anyH(p, r, 2, "bsq", dm=(3, 2, 3)); g = p.S(2, 3, 2, 1, rnd_data(r, 2, 6)); p.op("band2S", h=h, g=g, b=b)
        case("getband%d" % b, f)
    for il in ("bil", "bip"):
        for op in ("S2band", "band2S"):
            def f(p): h, _ = anyH(p, r, 1, il, dm=(3, 2, 3)); g = p.S(2, 3, 1, 1, [1] * 6); p.op(op, h=h, g=g, b=1)
            case(op + il, f)
    for R, Cc in [(3, 2), (2, 4), (1, 3), (6, 1)]:
        def f(p): h, _ = anyH(p, r, 1, "bsq", dm=(3, 2, 3)); g = p.S(R, Cc, 1, 1, [1] * (R * Cc)); p.op("S2band", h=h, g=g, b=1)
        case("size%d%d" % (R, Cc), f)
    for R, Cc in [(3, 5), (4, 4), (-3, -4), (0, 12), (12, 0), (1, 11), (13, 1)]:
        def f(p): h, _ = anyH(p, r, 4, "bsq", dm=(3, 2, 2)); p.op("reshape", h=h, g="g", r=R, c=Cc)
        case("reshape%d_%d" % (R, Cc), f)
    def f(p): h, _ = anyH(p, r, 1, dm=(3, 2, 2)); g, _ = anyH(p, r, 2, dm=(1, 1, 2)); p.op("splice", h=h, g=g, at=0)
    case("splicetype", f)
    return out
def c09(r, n):
    out = []
    for k in range(n):
        p = Prog("c09-%d" % k, *envs(r)); t = TYPES[k % 9]; R, Cc, ch = r.randint(1, 12), r.randint(1, 12), r.choice([1, 1, 2, 3, 3, 4])
        if k % 15 == 0: R, Cc = r.choice([(1, 300), (300, 1), (40, 30)])
        c = r.random()
        if c < .35: h = p.S(R, Cc, t, ch)
        elif c < .6: b = p.buf(t, rnd_data(r, t, R * Cc * ch), heap=1); h = p.h("s"); p.op("createS", h=h, r=R, c=Cc, t=t, ch=ch, data=b, plain=0)
        elif c < .8:
            p.op("putfile", path="raw", f="f", t=t, d=rnd_data(r, t, max(0, R * Cc * ch + r.choice([0, 2, -1, -r.randint(1, R * Cc * ch)])))); h = p.h("s"); p.op("readS", h=h, path="raw", f="f", r=R, c=Cc, t=t, ch=ch)
        elif c < .9: h = p.h("s"); p.op("createS", h=h, r=R, c=Cc, t=t, ch=ch, data="null", plain=0)
        else: h = None; p.D(r.randint(1, 7), r.randint(1, 7), None)
        if h and r.random() < .5: g = p.h("s"); p.op("copyS", h=h, g=g)
        if r.random() < .3:
            w, hh = r.randint(1, 6), r.randint(1, 6); d = p.D(w, hh, [r.randint(0, 1) for _ in range(w * hh)])
            if r.random() < .5: p.op("deleteD", h=d)
        if h and r.random() < .4: p.op("deleteS", h=h)
        p.end(); out.append(p)
    for k, (R, Cc, t, ch) in enumerate([(0, 1, 1, 1), (1, 0, 1, 1), (-1, 2, 1, 1), (2, -2, 4, 1), (-2, -2, 1, 1), (2, 2, 0, 1), (2, 2, 6, 1), (2, 2, 9, 3), (2, 2, 16, 1), (2, 2, 1, 0), (2, 2, 1, -1)]):
        p = Prog("c09-bad%d" % k); p.S(R, Cc, t, ch); p.end(); out.append(p)
    for k, (w, h) in enumerate([(0, 1), (1, 0), (-1, 3), (3, -1), (-1, -1)]):
        p = Prog("c09-badD%d" % k); p.D(w, h, None); p.end(); out.append(p)
        p = Prog("c09-badDd%d" % k); p.D(w, h, [1, 1, 1, 1]); p.end(); out.append(p)
    p = Prog("c09-nofile"); p.op("readS", h="h", path="nope", f="f", r=1, c=1, t=1, ch=1); p.end(); out.append(p)
    p = Prog("c09-delnull"); p.op("deleteS", h="null"); p.op("deleteD", h="null"); p.end(); out.append(p)
    return out
def c10(r, n):
    out = []
    for k in range(n):
        p = Prog("c10-%d" % k, *envs(r)); R, Cc = r.randint(1, 9), 1 + k % 9
        if k % 20 == 7: R, Cc = r.choice([(1, 90), (70, 3), (20, 21), (2, 258), (259, 1)])
        ch = 3 if k % 3 else 1
        s = p.S(R, Cc, 1, ch, rnd_data(r, 1, R * Cc * ch)); p.op("writebmp", h=s, path="o.bmp", f="f1"); p.op("readbmp", h="q", path="o.bmp", f="f1")
        c = r.random()
        if c < .3: p.op("writebmp", h=s, path="o2.bmp", f="f2"); p.op("readbmp", h="q2", path="o2.bmp", f="f2")
        elif c < .6: p.op("writebmp", h="q", path="o.bmp", f="f1"); p.op("deleteS", h="q"); p.op("readbmp", h="q3", path="o.bmp", f="f1")
        elif c < .7:
            s2 = p.S(2, 2, 1, 3, rnd_data(r, 1, 12)); p.op("writebmp", h=s2, path="o.bmp", f="f1"); p.op("readbmp", h="q4", path="o.bmp", f="f1")
        p.end(); out.append(p)
    for t in (2, 3, 4, 5, 12):
        p = Prog("c10-type%d" % t); s = p.S(2, 2, t, 1); p.op("writebmp", h=s, path="o.bmp", f="f"); p.end(0); out.append(p)
    # files of other origin: 24-bit, and 8-bit with a palette
    le = lambda v, m: [v >> 8 * i & 255 for i in range(m)]
    for k in range(n // 4):
        R, Cc = r.randint(1, 9), r.randint(1, 9); bc = [8, 24][k % 2] if k % 10 else r.choice([1, 4, 16, 32, 8, 24])
        if k % 25 == 3: R, Cc = r.choice([(1, 90), (70, 3), (2, 258), (259, 1)])
        if k % 10 == 0 and bc in (8, 24): R, Cc = r.choice([(0, 3), (3, 0)])
        st = (Cc * (1 if bc == 8 else 3) + 3) // 4 * 4; pal = [r.choice([r.randint(0, 255), 0]) for _ in range(1024)] if bc == 8 else []
        if r.random() < .5: pal = [q for i in range(256) for q in (r.randint(0, 255), i, 255 - i, 0)] if bc == 8 else []
        off = 54 + len(pal); body = rnd_data(r, 1, st * R)
        d = [66, 77] + le(off + st * R, 4) + le(0, 4) + le(off, 4) + le(40, 4) + le(Cc, 4) + le(R, 4) + le(1, 2) + le(bc, 2) + le(0, 4) + le(r.choice([0, st * R]), 4) + le(r.randint(0, 5000), 4) + le(r.randint(0, 5000), 4) + le(r.choice([0, 256]) if bc == 8 else 0, 4) + le(0, 4) + pal + body
        p = Prog("c10-foreign%d" % k, *envs(r)); p.op("putfile", path="x.bmp", t=1, d=d, f="f"); p.op("readbmp", h="q", path="x.bmp", f="f"); p.op("writebmp", h="q", path="y.bmp", f="g"); p.op("readbmp", h="q2", path="y.bmp", f="g"); p.end(); out.append(p)
    # files cut off anywhere: in the header they are refused or read with zeros for what is not there, like in the palette and the pixels
    for k in range(max(12, n // 6)):
        R, Cc = r.randint(1, 5), r.randint(1, 6); p = Prog("c10-cut%d" % k, *envs(r))
        if k % 2:
            s = p.S(R, Cc, 1, 3, rnd_data(r, 1, R * Cc * 3)); p.op("writebmp", h=s, path="o.bmp", f="f"); tot = 54 + (3 * Cc + 3) // 4 * 4 * R
        else:
            st = (Cc + 3) // 4 * 4; pal = rnd_data(r, 1, 1024)
            d = [66, 77] + le(1078 + st * R, 4) + le(0, 4) + le(1078, 4) + le(40, 4) + le(Cc, 4) + le(R, 4) + le(1, 2) + le(8, 2) + le(0, 4) + le(0, 4) + le(1, 4) + le(1, 4) + le(0, 4) + le(0, 4) + pal + rnd_data(r, 1, st * R); tot = len(d)
            p.op("putfile", path="o.bmp", t=1, d=d, f="f")
        p.op("cutfile", f="f", n=[tot - 1, r.randint(54, tot), r.randint(54, tot), r.choice([0, 14, 18, 20, 22, 23, 26, 27, 28, 29, 30, 40, 53, 54]), r.randint(0, 54)][(k // 2) % 5]); p.op("readbmp", h="q", path="o.bmp", f="f"); p.end(); out.append(p)
    for k, nm in enumerate(["gone/a.bmp", "x" * 300]): p = Prog("c10-nodir%d" % k, *envs(r)); p.op("writebmp", h=p.S(2, 3, 1, 3), path=nm, f="f", nodir=1); p.end(0); out.append(p)
    p = Prog("c10-missing"); p.op("readbmp", h="q", path="no.bmp", f="f"); p.end(); out.append(p)
    return out
def c08(r, n):
    """life-cycle histories: objects made in every way, used, and deleted in any order"""
    out = []
    for k in range(n):
        p = Prog("c08-%d" % k, *envs(r)); live = {}      # handle -> (kind, info)
        def put(h, kind, *info): live[h] = (kind,) + info
        for _ in range(r.randint(3, 16)):
            c = r.random(); hs = [h for h in live if live[h][0] == "H"]; ss = [h for h in live if live[h][0] == "S"]
            if c < .14 or not live:
                h, (s, l, b, t, il) = anyH(p, r); put(h, "H", s, l, b, t, il)
            elif c < .26:
                R, Cc, ch, t = r.randint(1, 6), r.randint(1, 6), r.choice([1, 1, 3]), r.choice([1, 1, 1, 4] + TYPES); d = rnd_data(r, t, R * Cc * ch); h = p.h("s"); m = r.random()
                if m < .5: bf = p.buf(t, d, heap=1); p.op("createS", h=h, r=R, c=Cc, t=t, ch=ch, data=bf, plain=0)
                elif m < .7:
                    pa = "r%d" % p._n; p.op("putfile", path=pa, f="f" + pa, t=t, d=d); p.op("readS", h=h, path=pa, f="f" + pa, r=R, c=Cc, t=t, ch=ch)
                else: p.op("createS", h=h, r=R, c=Cc, t=t, ch=ch, data="null", plain=1); p.op("fillS", h=h, d=d)
                put(h, "S", R, Cc, ch, t)
            elif c < .32:
                w, hh = r.randint(1, 5), r.randint(1, 5); h = p.D(w, hh, [1] * (w * hh) if r.random() < .5 else None); put(h, "D")
            elif c < .55 and hs:
                h = r.choice(hs); _, s, l, b, t, il = live[h]; q = r.random(); g = p.h("h")
                if q < .2: p.op("copyH", h=h, g=g); put(g, "H", s, l, b, t, il)
                elif q < .4:
                    to = r.choice([i for i in ILS if i != il]); p.op("convH", fn=conv_name(il, to), h=h, g=g); put(g, "H", s, l, b, t, to)
                elif q < .55: to = r.choice(ILS); p.op("convert2H", h=h, il=to); live[h] = ("H", s, l, b, t, to)
                elif q < .7: rg = box(r, s, l, b); p.op("rangeH", h=h, g=g, rg=rg); put(g, "H", rg[4] - rg[1], rg[3] - rg[0], rg[5] - rg[2], t, il)
                elif q < .8: p.op("reshape", h=h, g=g, r=s * l, c=b); put(g, "S", s * l, b, 1, t)
                elif q < .9 and t in (1, 12): p.op("convtype", fn="uchar2float" if t == 1 else "ushort2float", h=h, g=g); put(g, "H", s, l, b, 4, il)
                else:
                    pa = "h%d" % p._n; p.op("saveH", h=h, path=pa, f="f_" + pa, e="e_" + pa); p.op("loadH", h=g, path=pa, f="f_" + pa, e="e_" + pa); put(g, "H", s, l, b, t, il)
            elif c < .72 and ss:
                h = r.choice(ss); _, R, Cc, ch, t = live[h]; q = r.random(); g = p.h("s")
                if q < .35: p.op("copyS", h=h, g=g); put(g, "S", R, Cc, ch, t)
                elif q < .5: p.op("border", h=h, g=g, top=1, bottom=0, left=2, right=1, bt=r.randint(0, 4), val=7); put(g, "S", R + 1, Cc + 3, ch, t)
                elif q < .65 and t == 1 and ch == 1: p.op("gray2rgb", h=h, g=g); put(g, "S", R, Cc, 3, 1)
                elif q < .8 and t == 1 and ch == 3: p.op("rgb2gray", h=h, g=g, m=r.randint(0, 2)); put(g, "S", R, Cc, 1, 1)
                elif t == 1: p.op("writebmp", h=h, path="i.bmp", f="fi"); p.op("readbmp", h=g, path="i.bmp", f="fi"); put(g, "S", R, Cc, 3, 1)
                elif t == 4: p.op("f2uS", h=h, g=g); put(g, "S", R, Cc, ch, 1)
            elif c < .75: p.op(r.choice(["deleteH", "deleteS", "deleteD"]), h="null")
            elif c < .78:
                p.op("loadH", h=p.h("h"), path="none", f="fx", e="ex")
                p.end(); live = None; break
            else:
                h = r.choice(list(live)); p.op("delete" + live.pop(h)[0], h=h)
        if live is not None:
            hs = list(live); r.shuffle(hs)
            for h in hs:
                if r.random() < .8: p.op("delete" + live[h][0], h=h)
            p.end()
        out.append(p)
    return out
