"""Programs on objects whose axes exceed 256 and whose element counts exceed 2^15 and 2^16 (one set per property)."""
from hv import *
from gen_proc import u8, P, FT, CONVS, kern, BT, LIM, refl, nums
from gen_core import ILS, io_wave, conv_name
BIG = (257, 258)            # rows, columns: more than 2^16 elements, both axes beyond a byte
LONG = [(2, 300), (300, 2)] # each axis in turn
def S(p, r, R, C, t=1, ch=1, d=None): return p.S(R, C, t, ch, d or (u8(r, R * C * ch) if t == 1 else rnd_data(r, t, R * C * ch)))
def cubes(r):
    """samples, lines, bands, type"""
    x = [(260, 3, 2), (3, 260, 2), (2, 3, 260), (19, 23, 200)]
    return [d + (r.choice([1, 1, 2, 5]),) for d in x[:3]] + [x[3] + (1,), (259, 259, 1, 1)]
def H(p, r, d, il=None):
    s, l, b, t = d; return p.H(s, l, b, t, il or r.choice(ILS), rnd_data(r, t, s * l * b), rnd_wave(r, b))
def mk(r, name, k, f):
    p = Prog("%s-large%s" % (name, k), *envs(r)); f(p); p.end(); return p
def l01(r, n): return [mk(r, "c01", k, lambda p: H(p, r, d)) for k, d in enumerate(cubes(r))]
def l02(r, n):
    out = []
    for k, d in enumerate(cubes(r)[:4]):
        for a in ILS:
            for b in ILS:
                if a != b and (k < 3 or (ILS.index(a) - ILS.index(b)) % 3 == 1 or r.random() < .5):
                    def f(p): h = H(p, r, d, a); p.op("convH", fn=conv_name(a, b), h=h, g="q") if k == 3 or r.random() < .5 else p.op("convert2H", h=h, il=b)
                    out.append(mk(r, "c02", "%d%s%s" % (k, a, b), f))
    return out
def l03(r, n):
    out = []
    for k, d in enumerate(cubes(r)[:4]):
        for il in ILS:
            s, l, b, t = d; c = [(r.randint(0, x // 9), x - r.randint(0, x // 9)) for x in (l, s, b)]
            def f(p): p.op("rangeH", h=H(p, r, d, il), g="q", rg=[x[0] for x in c] + [x[1] for x in c])
            out.append(mk(r, "c03", "%d%s" % (k, il), f))
    return out
def l04(r, n):
    out = []
    for k, d in enumerate(cubes(r)):
        def f(p): h = H(p, r, d); p.op("copyH", h=h, g="q"); g = H(p, r, d); p.op("copytoH", h="q", g=g)
        out.append(mk(r, "c04", k, f))
    for k, d in enumerate([(1, 2, 260, 1), (2, 1, 515, 5)]):
        def f(p): h = H(p, r, d); g = p.H(3, 1, d[2], 4, "bsq", None, rnd_wave(r, d[2])); p.op("copywaveH", h=h, g=g)
        out.append(mk(r, "c04", "w%d" % k, f))
    for k, (R, C) in enumerate(LONG + [BIG]): out.append(mk(r, "c04", "S%d" % k, lambda p: p.op("copyS", h=S(p, r, R, C, 12 if k < 2 else 1), g="q")))
    return out
def l05(r, n):
    out = []
    for k, d in enumerate(cubes(r) + [(1, 2, 1300, 2), (1, 1, 4100, 1)]):
        def f(p):
            s, l, b, t = d; h = p.H(s, l, b, t, r.choice(ILS), rnd_data(r, t, s * l * b), [ef(f32(400 + 2.5 * i)) for i in range(b)])
            p.op("saveH", h=h, path="a", f="f", e="e"); p.op("loadH", h="q", path="a", f="f", e="e"); p.op("loadsizeH", h="q2", path="a", f="f", s=s, l=l, b=b, t=t, il="bil") if k < 4 else None
        out.append(mk(r, "c05", k, f))
    return out
def l07(r, n):
    out = []
    for k, (s, l, b, t) in enumerate([(300, 2, 3, 2), (2, 300, 3, 1), (2, 2, 300, 4), (129, 130, 4, 1), (33, 32, 64, 1)]):
        def f(p):
            h = H(p, r, (s, l, b, t), "bsq"); g = S(p, r, l, s, t); p.op("S2band", h=h, g=g, b=b); p.op("band2S", h=h, g=S(p, r, l, s, t), b=b - 1)
        out.append(mk(r, "c07", k, f))
        if k in (0, 1, 2, 4):
            def f(p):
                h = H(p, r, (s, l, b, t)); p.op("reshape", h=h, g="q", r=l, c=s * b)
                g = H(p, r, (s, 1, 2, t)); p.op("splice", h=h, g=g, at=s * l * b - 2 * s)
            out.append(mk(r, "c07", "r%d" % k, f))
    return out
def l09(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [BIG]):
        def f(p):
            t = 1 if k == 2 else r.choice(TYPES); S(p, r, R, C, t); p.op("putfile", path="raw", f="f", t=t, d=rnd_data(r, t, R * C)); p.op("readS", h="q", path="raw", f="f", r=R, c=C, t=t, ch=1)
        out.append(mk(r, "c09", k, f))
    out.append(mk(r, "c09", "D", lambda p: p.D(301, 3, [r.randint(0, 1) for _ in range(903)]) and p.D(3, 301, [r.randint(0, 1) for _ in range(903)])))
    return out
def l10(r, n):
    out = []
    for k, (R, C, ch) in enumerate([(2, 300, 1), (300, 2, 3), (257, 258, 1), (150, 149, 3), (1, 1025, 3)]):
        def f(p): p.op("writebmp", h=S(p, r, R, C, 1, ch), path="o", f="f"); p.op("readbmp", h="q", path="o", f="f")
        out.append(mk(r, "c10", k, f))
    return out
def l11(r, n):
    out = []
    for k, (fn, t) in enumerate(CONVS.items()):
        d = [(260, 2, 1), (2, 260, 1), (2, 1, 260)][k % 3] + (t,)
        if k % 5 == 1: d = (70, 60, 16, t)
        def f(p):
            s, l, b, _ = d; e = [ef(f32(r.randint(-90000, 90000) / 2)) for _ in range(s * l * b)] if t == 4 else rnd_data(r, t, s * l * b)
            p.op("convtype", fn=fn, h=p.H(s, l, b, t, r.choice(ILS), e, rnd_wave(r, b)), g="q")
        out.append(mk(r, "c11", k, f))
    return out
def l12(r, n):
    out = []
    for k, fn in enumerate(FT + ["otsu"]):
        R, C = [(2, 300), (300, 2), BIG][(k + r.randint(0, 2)) % 3] if k < 5 else BIG
        def f(p): a = S(p, r, R, C); p.op("thresh", fn=fn, h=a, g=S(p, r, R, C), th=r.randint(0, 254), mx=255, type=0); fn == "otsu" and p.op("otsu", h=a)
        out.append(mk(r, "c12", k, f))
    return out
def l13(r, n):
    out = []
    for k, (R, C, w) in enumerate([(2, 300, (1, 1, 2, 303)), (300, 2, (2, 303, 1, 1)), (1, 1, (0, 300, 300, 0)), (250, 250, (3, 7, 4, 9)), (2, 2, (130, 130, 124, 130))]):
        def f(p): p.op("border", h=S(p, r, R, C), g="q", top=w[0], bottom=w[1], left=w[2], right=w[3], bt=r.choice([1, 2, 3, 4]) if k < 4 else 4, val=9)
        out.append(mk(r, "c13", k, f))
    return out
def l14(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [BIG]):
        for fn in ("h", "v", "code", "trans"):
            t = 1 if k == 2 else r.choice(TYPES)
            def f(p): a = S(p, r, R, C, t); p.op("transS", h=a, g=S(p, r, C, R, t)) if fn == "trans" else p.op("flip", fn=fn, h=a, g=S(p, r, R, C, t), code=-1)
            out.append(mk(r, "c14", "%d%s" % (k, fn), f))
    for k, (s, l, b) in enumerate([(300, 2, 2), (2, 300, 2), (2, 3, 300), (130, 131, 4)]):
        def f(p): p.op("transH", h=p.H(s, l, b, 1, "bsq", rnd_data(r, 1, s * l * b), None), g=p.H(l, s, b, 1, "bsq", rnd_data(r, 1, s * l * b), None))
        out.append(mk(r, "c14", "H%d" % k, f))
    return out
def l15(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [(257, 256)]):
        if k < 2:
            out.append(mk(r, "c15", "f%d" % k, lambda p: p.op("filter2D", h=S(p, r, R, C), g=S(p, r, R, C, 4), k=p.buf(4, kern(r, 9)), kr=3, kc=3, bt=r.randint(0, 4))))
            out.append(mk(r, "c15", "g%d" % k, lambda p: p.op("gauss", h=S(p, r, R, C), g=S(p, r, R, C), kw=3, kh=3, s1=[0, 0], s2=[0, 0], bt=r.randint(0, 4))))
        if k == 2:
            for q, (kr, kc) in enumerate([(17, 3), (3, 19), (13, 13)]): out.append(mk(r, "c15", "F%d" % q, lambda p: p.op("filter2D", h=S(p, r, 15, 17), g=S(p, r, 15, 17, [1, 4][q % 2]), k=p.buf(4, kern(r, kr * kc)), kr=kr, kc=kc, bt=r.randint(0, 4))))
            for q, (kw, kh) in enumerate([(21, 3), (5, 17), (33, 1)]): out.append(mk(r, "c15", "G%d" % q, lambda p: p.op("gauss", h=S(p, r, 12, 11), g=S(p, r, 12, 11), kw=kw, kh=kh, s1=[0, 0], s2=[0, 0], bt=r.randint(0, 4))))
        out.append(mk(r, "c15", "l%d" % k, lambda p: p.op("lap", h=S(p, r, R, C), g=S(p, r, R, C), ks=1, bt=r.randint(0, 4))))
        out.append(mk(r, "c15", "s%d" % k, lambda p: p.op("sobel", h=S(p, r, R, C), g=S(p, r, R, C), th=100, bt=r.randint(0, 4))))
    return out
def l16(r, n):
    out = []
    for k, (R, C) in enumerate([(4, 300), (300, 4), (257, 256)]):
        out.append(mk(r, "c16", "m%d" % k, lambda p: p.op("median", h=S(p, r, R, C), g=S(p, r, R, C), size=3)))
        out.append(mk(r, "c16", "b%d" % k, lambda p: p.op("meanblur", h=S(p, r, R, C), g=S(p, r, R, C), size=3)))
        if k < 2:
            for q in (13, 15): out.append(mk(r, "c16", "M%d%d" % (k, q), lambda p: p.op("median", h=S(p, r, 20 + k, 21 - k), g=S(p, r, 20 + k, 21 - k), size=q))); out.append(mk(r, "c16", "B%d%d" % (k, q), lambda p: p.op("meanblur", h=S(p, r, 20 + k, 21 - k), g=S(p, r, 20 + k, 21 - k), size=2 * q + 1)))
        out.append(mk(r, "c16", "i%d" % k, lambda p: p.op("integral", h=p.S(R, C, 1, 1, [r.randint(0, 255) for _ in range(R * C)]), g=S(p, r, R, C, 3))))
    return out
def l17(r, n):
    out = []
    for k, (R, C) in enumerate([(4, 300), (300, 4), (257, 256)]):
        for op in ("erode", "dilate", "open", "close"):
            def f(p): p.op(op, h=p.S(R, C, 1, 1, [int(r.random() < .8) for _ in range(R * C)]), g=S(p, r, R, C), d=p.D(3, 3, None), **(dict(it=1) if op in ("open", "close") else {}))
            if k < 2 or op in ("erode", "dilate"): out.append(mk(r, "c17", "%d%s" % (k, op), f))
            def f(p): wd, ht = [(9, 9), (17, 3), (1, 15)][k]; p.op(op, h=p.S(22, 25, 1, 1, [int(r.random() < (.98 if op in ("erode", "open") else .03)) for _ in range(550)]), g=S(p, r, 22, 25), d=p.D(wd, ht, [int(r.random() < .5) for _ in range(wd * ht)]), **(dict(it=2) if op in ("open", "close") else {}))
            out.append(mk(r, "c17", "e%d%s" % (k, op), f))
    return out
def l18(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [BIG]):
        t = [r.choice(TYPES), r.choice(TYPES), r.choice([1, 12])][k]
        def f(p): a = p.S(R, C, t, 1, nums(r, t, R * C)); p.op("meanS", h=a); p.op("varS", h=a)
        out.append(mk(r, "c18", "m%d" % k, f))
        def f(p): a = S(p, r, R, C); p.op("hist", h=a, g=p.buf(3, rnd_data(r, 3, 256))); p.op("entropy", h=a); p.op("contrast", h=a)
        out.append(mk(r, "c18", "h%d" % k, f))
    def f(p): a = p.S(*BIG, 1, 1, [255] * (BIG[0] * BIG[1])); p.op("hist", h=a, g=p.buf(3, rnd_data(r, 3, 256))); p.op("meanS", h=a); p.op("varS", h=a)
    out.append(mk(r, "c18", "const", f))
    def f(p): a = p.S(*BIG, 1, 1, [7] * 66000 + [9] * (BIG[0] * BIG[1] - 66000)); p.op("hist", h=a, g=p.buf(3, rnd_data(r, 3, 256))); p.op("entropy", h=a); p.op("meanS", h=a)
    out.append(mk(r, "c18", "two", f))
    return out
def l19(r, n):
    def f(p):
        p.op("vnew", h="v", t=2)
        for i in range(300): p.op("vec", h="v", fn="push", x=i - 20000)
        for i in (299, 257, 256, 255, 128, 0, 270): p.op("vec", h="v", fn="erase", i=i); p.op("vec", h="v", fn="get", i=min(i, 280))
        p.op("vec", h="v", fn="size"); p.op("vdel", h="v")
    def g(p): p.op("vnew", h="v", t=1); p.op("vec", h="v", fn="init", x=7, n=40000); p.op("vec", h="v", fn="push", x=9); p.op("vec", h="v", fn="erase", i=39000); p.op("vec", h="v", fn="get", i=39999); p.op("vec", h="v", fn="size"); p.op("vdel", h="v")
    return [mk(r, "c19", 0, f), mk(r, "c19", 1, g)]
def flatm(A): return [ef(float(x)) for row in A for x in row]
def wellcond(r, m):
    """a permuted, scaled matrix with small entries besides: every row exchange is needed"""
    pm = list(range(m)); r.shuffle(pm)
    return [[r.choice([4, -4, 6]) if pm[i] == j else r.choice([0, 0, 0, .125, -.125, .25]) for j in range(m)] for i in range(m)]
def l34(r, n):
    out = []
    for m in (7, 9, 12):
        def f(p): x = p.buf(4, flatm(wellcond(r, m))); p.op("qr", x=x, q=p.buf(4, refl(r, m * m)), r=p.buf(4, refl(r, m * m)), m=m)
        out.append(mk(r, "c34", "q%d" % m, f))
        def f(p):
            ev = r.sample(range(1, 30), m); A = [[ev[i] if i == j else r.choice([0, 0, 1, -1]) if (i < j if m != 9 else i > j) else 0 for j in range(m)] for i in range(m)]; r.shuffle(ev)
            x = p.buf(4, flatm(A)); p.op("eigvec", x=x, v=p.buf(4, refl(r, m * m)), ev=p.buf(4, [ef(float(v)) for v in ev]), m=m)
        out.append(mk(r, "c34", "e%d" % m, f))
    return out
def l20(r, n):
    out = []
    for k, (m, q, w) in enumerate([(260, 2, 2), (2, 260, 2), (2, 2, 260)]):
        ty = r.choice(["uchar", "short", "int", "uint", "ushort"]); t = BT[ty]; hi = {"uchar": 1, "short": 9, "int": 200, "uint": 200, "ushort": 9}[ty]
        d = lambda n: [enc(t, r.randint(0, hi)) if ty != "uchar" else r.choice([0] * 9 + [1]) for _ in range(n)]
        out.append(mk(r, "c20", "m%d" % k, lambda p: p.op("matmul", ty=ty, x=p.buf(t, d(m * q)), y=p.buf(t, d(q * w)), z=p.buf(t, rnd_data(r, t, m * w)), m=m, k=q, n=w)))
        if ty != "uchar" or 1: out.append(mk(r, "c20", "c%d" % k, lambda p: p.op("matcorr", ty=ty, x=p.buf(t, d(m * q)), y=p.buf(t, d(q * w)), z=p.buf(t, rnd_data(r, t, m * w)), m=m, k=q, n=w)))
    for k, (m, q) in enumerate([(2, 300), (300, 2), BIG]):
        ty = r.choice(list(BT)) if k < 2 else "uchar"; t = BT[ty]
        out.append(mk(r, "c20", "t%d" % k, lambda p: p.op("mattrans", ty=ty, x=p.buf(t, rnd_data(r, t, m * q)), z=p.buf(t, rnd_data(r, t, m * q)), m=m, n=q)))
    def f(p): x = p.buf(4, refl(r, 600)); p.op("swaprows", x=x, m=300, n=2, r1=299, r2=256); p.op("swaprows", x=x, m=2, n=300, r1=0, r2=1); p.op("identity", x=p.buf(4, refl(r, 4900)), m=70)
    out.append(mk(r, "c20", "s", f))
    for m in (9, 11, 17):
        def f(p): x = p.buf(4, flatm(wellcond(r, m))); z = p.buf(4, rnd_data(r, 4, m * m)); p.op("invert", x=x, z=z, m=m)
        out.append(mk(r, "c20", "i%d" % m, f))
    def f(p): x = p.buf(4, refl(r, 300)); p.op("norm", x=x, n=300); p.op("sortdown", x=x, n=300)
    out.append(mk(r, "c20", "n", f))
    return out
def l22(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [BIG]):
        def f(p): p.op("gray2rgb", h=S(p, r, R, C), g="q")
        out.append(mk(r, "c22", "g%d" % k, f))
        def f(p): p.op("bin2rgb", h=p.S(R, C, 1, 1, [r.randint(0, 1) for _ in range(R * C)]), g="q")
        out.append(mk(r, "c22", "b%d" % k, f))
        R2, C2 = (R, C) if k < 2 else (150, 149)
        def f(p): a = S(p, r, R2, C2, 1, 3); p.op("rgb2gray", h=a, g="q", m=r.choice([0, 1, 2])); p.op("bgr2rgb", h=a, g=S(p, r, R2, C2, 1, 3))
        out.append(mk(r, "c22", "r%d" % k, f))
    return out
def l24(r, n):
    out = []
    def f(p): x, y = p.buf(4, refl(r, 300)), p.buf(4, refl(r, 300)); p.op("sam", x=x, y=y, n=300); p.op("eucl", x=x, y=y, n=300)
    out.append(mk(r, "c24", "s", f))
    for m in (300, 1500):
        def f(p): vals = [round(r.uniform(0, 2), 4) for _ in range(m)]; p.op("readspec", path="sp.txt", _text=r.choice([" ", "\n"]).join(map(str, vals)), has=1, n=m, g="q", vals=[ef(f32(v)) for v in vals], _m=m)
        out.append(mk(r, "c24", "r%d" % m, f))
    for k, (s, l, b) in enumerate([(260, 1, 2), (1, 260, 2), (2, 1, 260)]):
        def f(p): h = p.H(s, l, b, 4, "bip", refl(r, s * l * b), None); p.op("meanH", h=h, g=p.S(l, s, 4, 1, refl(r, s * l)))
        out.append(mk(r, "c24", "m%d" % k, f))
        def f(p): h = p.H(s, l, b, 4, "bip", refl(r, s * l * b), None); p.op("sammatch", h=h, x=p.buf(4, refl(r, b)), th=[1, 0], g="q")
        out.append(mk(r, "c24", "a%d" % k, f))
    return out
def l25(r, n):
    out = []
    for k, (s, l, b) in enumerate([(300, 1, 2), (1, 300, 2), (2, 1, 300), (60, 20, 30)]):
        def f(p): h = p.H(s, l, b, 4, "bip", refl(r, s * l * b), rnd_wave(r, b)); p.op("absrad", h=h, k=p.buf(4, refl(r, b)), g="q")
        out.append(mk(r, "c25", "a%d" % k, f))
        def f(p): h = p.H(s, l, b, 12, "bip", rnd_data(r, 12, s * l * b), rnd_wave(r, b)); p.op("relrad", h=h, k=p.buf(4, refl(r, b * s)), g="q")
        out.append(mk(r, "c25", "r%d" % k, f))
    return out
def l33(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [BIG]):
        def f(p): x = u8(r, R * C); p.op("addS", fn="uchar", h=p.S(R, C, 1, 1, x), h2=p.S(R, C, 1, 1, [r.randint(0, 255 - v) for v in x]), g=S(p, r, R, C))
        out.append(mk(r, "c33", "u%d" % k, f))
        R2, C2 = (R, C) if k < 2 else (182, 181)
        def f(p): p.op("addS", fn="float", h=p.S(R2, C2, 4, 1, refl(r, R2 * C2)), h2=p.S(R2, C2, 4, 1, refl(r, R2 * C2)), g=p.S(R2, C2, 4, 1, refl(r, R2 * C2)))
        out.append(mk(r, "c33", "f%d" % k, f))
        R3, C3 = [(1, 260), (260, 1), (1, 1)][k]
        if k < 2: out.append(mk(r, "c33", "l%d" % k, lambda p: p.op("logS", h=p.S(R3, C3, 4, 1, [ef(f32(r.uniform(.01, 100))) for _ in range(R3 * C3)]), g=p.S(R3, C3, 4, 1, refl(r, R3 * C3)))))
    return out
def l26(r, n):
    out = []
    for k, (R, C) in enumerate([(3, 300), (300, 3), (60, 70)]):
        def f(p): p.op("kmeans", h=p.S(R, C, 1, 1, [r.choice([0] * 9 + [r.randint(1, 255)]) for _ in range(R * C)]), kind=2, n=2, th=1, seed=r.randint(0, 10**9))
        out.append(mk(r, "c26", k, f))
    for k in (9, 17):
        def f(p): p.op("kmeans", h=p.S(24, 31, 1, 1, [r.choice([0] * 3 + [r.randint(1, 255)]) for _ in range(744)]), kind=k, n=k, th=0, seed=r.randint(0, 10**9))
        out.append(mk(r, "c26", "K%d" % k, f))
    return out
def l28(r, n):
    return [mk(r, "c28", k, lambda p: p.op("hu", h=p.S(R, C, 1, 1, [r.choice([0, 0, 0, 255]) for _ in range(R * C)]), g=p.buf(5, rnd_data(r, 5, 7), heap=1))) for k, (R, C) in enumerate([(2, 300), (300, 2), (60, 60)])]
def l29(r, n):
    out = []
    for k, (R, C, ch) in enumerate([(5, 300, 1), (300, 5, 3), (258, 257, 1)]):
        def f(p):
            p.op("draw", fn="line", h=S(p, r, R, C, 1, ch), g=S(p, r, R, C, 1, ch), pts=[r.randint(0, C // 9), r.randint(0, R // 9), C - 1 - r.randint(0, C // 9), R - 1 - r.randint(0, R // 9)], col=[1, 2, 3], size=r.choice([1, 2, 3]))
            p.op("draw", fn="point", h=S(p, r, R, C, 1, ch), g=S(p, r, R, C, 1, ch), pts=[C - 1, R - 1, C - 3, 1, 1, R - 2], col=[4, 5, 6], size=3)
        out.append(mk(r, "c29", k, f))
    out.append(mk(r, "c29", "many", lambda p: p.op("draw", fn="point", h=S(p, r, 30, 40), g=S(p, r, 30, 40), pts=[r.randint(-2, 41) for _ in range(140)], col=[7, 8, 9], size=2)))
    out.append(mk(r, "c29", "thick", lambda p: (p.op("draw", fn="line", h=S(p, r, 50, 40, 1, 3), g=S(p, r, 50, 40, 1, 3), pts=[3, 5, 37, 20], col=[7, 8, 9], size=15), p.op("draw", fn="point", h=S(p, r, 50, 40, 1, 3), g=S(p, r, 50, 40, 1, 3), pts=[30, 20], col=[7, 8, 9], size=35))))
    return out
def l30(r, n):
    out = []
    for k, (R, C) in enumerate(LONG + [(128, 100)]):
        for t in (1, 4):
            if k < 2 or t == 1: out.append(mk(r, "c30", "n%d%d" % (k, t), lambda p: p.op("normz", fn="gen", h=p.S(R, C, t, 1, u8(r, R * C) if t == 1 else refl(r, R * C)), g=S(p, r, R, C, t), alpha=[200, 0], beta=[10, 0], nt=r.choice([1, 2, 4, 32, 32]))))
        out.append(mk(r, "c30", "e%d" % k, lambda p: p.op("equalise", h=S(p, r, R, C), g=S(p, r, R, C))))
    for k, (R, C) in enumerate([(257, 258), (66000, 1)]):
        out.append(mk(r, "c30", "E%d" % k, lambda p: p.op("equalise", h=p.S(R, C, 1, 1, [r.choice([0, 0, 3, 7, 200, 255, r.randrange(256)]) for _ in range(R * C)]), g=S(p, r, R, C))))
    for k, (s, l, b) in enumerate([(300, 2, 2), (2, 300, 2), (3, 2, 260)]):
        out.append(mk(r, "c30", "t%d" % k, lambda p: p.op("tension", h=p.H(s, l, b, 4, "bsq", refl(r, s * l * b), None), g=p.H(s, l, b, 1, "bsq", rnd_data(r, 1, s * l * b), None))))
    return out
def l32(r, n):
    out = []
    for k, (R, C) in enumerate([(2, 300), (300, 2)]):
        out.append(mk(r, "c32", "d%d" % k, lambda p: p.op("pyrdown", h=S(p, r, R, C), g=S(p, r, (R + 1) // 2, (C + 1) // 2))))
        out.append(mk(r, "c32", "u%d" % k, lambda p: p.op("pyrup", h=S(p, r, R, C), g=S(p, r, 2 * R, 2 * C))))
    return out
def l35(r, n):
    out = []
    for k, (s, l, b) in enumerate([(300, 2, 1), (2, 300, 1), (2, 1, 300), (100, 90, 4)]):
        out.append(mk(r, "c35", k, lambda p: p.op("rotate", h=p.H(s, l, b, 1, r.choice(ILS), rnd_data(r, 1, s * l * b), rnd_wave(r, b)), g="q", angle=r.choice([[90, 0], [180, 0], [-90, 0]]) if k == 3 else r.choice([[90, 0], [180, 0], [7, 0], [-90, 0]]))))
    return out
def l37(r, n): return [mk(r, "c37", k, lambda p: p.op("edge", h=S(p, r, R, C))) for k, (R, C) in enumerate(LONG + [(60, 64)])]
def l27(r, n):
    import gen_alg as ga
    out = []
    for k, (s, l, b) in enumerate([(260, 1, 2), (1, 260, 2)]):
        X = [[f32(r.randint(-512, 512) / 64) for _ in range(b)] for _ in range(s * l)]; il = r.choice(ILS)
        def f(p): p.op("cem", h=p.H(s, l, b, 4, il, ga.layout(X, s, l, b, il), rnd_wave(r, b)), x=p.buf(4, [[1, 0], [3, -1]]), g="q")
        out.append(mk(r, "c27", k, f))
    for b in (5, 6):
        X = spectra(r, b, 16); il = r.choice(ILS)
        def f(p): p.op("cem", h=p.H(4, 4, b, 4, il, ga.layout(X, 4, 4, b, il), None), x=p.buf(4, refl(r, b, 9)), g="q")
        out.append(mk(r, "c27", "b%d" % b, f))
    return out
def l36(r, n):
    import gen_alg as ga
    out = []
    for k, (s, l, b) in enumerate([(260, 1, 2), (1, 260, 2)]):
        X = [[f32(r.randint(-1024, 1024) / 64), f32(r.randint(-128, 128) / 64)] for _ in range(s * l)]
        def f(p): p.op("pca", h=p.H(s, l, b, 4, "bip", ga.layout(X, s, l, b, "bip"), None), g=p.H(s, l, b, 4, "bip", refl(r, s * l * b), None), it=60)
        out.append(mk(r, "c36", k, f))
    for b in (5,):
        X = spectra(r, b, 14)
        def f(p): p.op("pca", h=p.H(7, 2, b, 4, "bip", ga.layout(X, 7, 2, b, "bip"), None), g=p.H(7, 2, b, 4, "bip", refl(r, 14 * b), None), it=120)
        out.append(mk(r, "c36", "b%d" % b, f))
    return out
def spectra(r, b, N):
    """spectra whose covariance has well separated eigenvalues"""
    import gen_alg as ga
    while 1:
        sc = [1.75 ** -k for k in range(b)]; X = [[r.uniform(-9, 9) * q for q in sc] for _ in range(N)]
        for i in range(b):
            for j in range(i + 1, b):
                th = r.uniform(0, 6.28); c, z = math.cos(th), math.sin(th)
                for x in X: x[i], x[j] = c * x[i] - z * x[j], z * x[i] + c * x[j]
        X = [[f32(round(v * 64) / 64) for v in x] for x in X]
        mu = [sum(x[k] for x in X) / N for k in range(b)]; e = ga.eig(ga.gram([[x[k] - mu[k] for k in range(b)] for x in X]))
        if e[-1] > 0 and all(e[k] > 2 * e[k + 1] for k in range(b - 1)) and e[0] < 2000 * e[-1]: return X
def l06(r, n):
    """headers of large cubes"""
    import gen_core as gc
    out = []
    for k, (s, l, b, t) in enumerate([(300, 2, 2, 2), (2, 300, 2, 1), (2, 1, 300, 4), (33, 32, 64, 1), (1, 1, 1300, 1), (1, 2, 4100, 2)]):
        w = [400 + 2.5 * i for i in range(b)]; ln = [dict(f="samples", v=s), dict(f="lines", v=l), dict(f="bands", v=b), dict(f="data type", v=t), dict(f="interleave", il=r.choice(ILS)), dict(f="wavelength", w=[ef(f32(x)) for x in w], _w=w)]
        txt = "ENVI\n" + "\n".join("%s = %s" % (x["f"], x.get("v", x.get("il"))) for x in ln[:5]) + "\nwavelength = {" + (", " if k % 2 else ",\n ").join(map(str, w)) + "}\n"
        out.append(mk(r, "c06", k, lambda p: p.op("loadtext", h="h", path="im", t=t, d=rnd_data(r, t, s * l * b), img=1, hdr=1, lines=[{a: z for a, z in x.items() if a[0] != "_"} for x in ln], _text=txt)))
    return out
def l21(r, n):
    from gen_cxx import XP, SAVABLE
    out = []
    for k, (s, l, b) in enumerate([(260, 3, 2), (3, 260, 2), (2, 3, 260), (41, 45, 41), (1, 1, 1300)]):
        for a in range(3 if k < 4 else 1):
            t = 1 if k == 3 else r.choice(SAVABLE); f = ILS[a]; to = [x for x in ILS if x != f][r.randint(0, 1)]
            x = XP(r, "c21-large%d%s" % (k, f)); h = x.new(3, t, f, (s, l, b)); p = x.p
            p.op("convX", fn=conv_name(f, to), h=h, g="q"); p.op("toX", h="q", fm=f); p.op("saveX", h="q", stem="p", ext=".img", f="f", e="e", null=0); p.op("readX", h="q2", stem="p", ext=".img", f="f", e="e")
            p.op("rangeX", h=h, g="q3", rg=[l - l // 2, s - s // 2, b - b // 2, l, s, b]); p.op("copyX", h="q3", g="q4"); p.end(); out.append(p)
    return out

def l23(r, n):
    out = []
    for k, (R, C) in enumerate([(1, 32), (27, 1), (2, 25), (30, 3), (11, 13)]):
        def f(p): re, im = p.S(R, C, 4, 1, refl(r, R * C)), p.S(R, C, 4, 1, refl(r, R * C)); p.op("dft", fn="gen", h=S(p, r, R, C), g=re, g2=im); p.op("idft", fn="gen", h=re, h2=im, g=S(p, r, R, C)); p.op("magnitude", h=re, h2=im, g=p.S(R, C, 4, 1, refl(r, R * C)))
        out.append(mk(r, "c23", k, f))
    for k, (R, C) in enumerate([(2, 300), (300, 2)]):
        out.append(mk(r, "c23", "m%d" % k, lambda p: p.op("magnitude", h=p.S(R, C, 4, 1, refl(r, R * C)), h2=p.S(R, C, 4, 1, refl(r, R * C)), g=p.S(R, C, 4, 1, refl(r, R * C)))))
    return out
