"""Program generators for the process module."""
from hv import *
from fractions import Fraction
def idims(r, big=9):
    c = r.random()
    if c < .15: return r.choice([(1, 1), (1, r.randint(2, 12)), (r.randint(2, 12), 1), (2, 2)])
    return r.randint(1, big), r.randint(1, big)
def u8(r, n, mode=None):
    m = r.random() if mode is None else mode
    if m < .5: return [r.randint(0, 255) for _ in range(n)]
    if m < .7: a, b = r.randint(0, 255), r.randint(0, 255); return [r.choice([a, b]) for _ in range(n)]
    if m < .85: c = r.randint(0, 250); return [c + r.randint(0, 5) for _ in range(n)]
    return [r.choice([0, 255, 1, 254]) for _ in range(n)]
def img(p, r, R=None, C=None, ch=1, t=1, d=None):
    if R is None: R, C = idims(r)
    if d is None: d = u8(r, R * C * ch) if t == 1 else rnd_data(r, t, R * C * ch)
    return p.S(R, C, t, ch, d), R, C
def garb(p, r, R, C, ch=1, t=1): return p.S(R, C, t, ch, rnd_data(r, t, R * C * ch))
def fin(p, r, h):
    """sometimes delete, so leaks of inputs show too"""
    return p.end()
def P(name, k, r): return Prog("%s-%d" % (name, k), *envs(r))
def case(out, name, r, f):
    p = Prog(name, *envs(r)); f(p); p.end(0); out.append(p)
def num(r, t):
    """an element of type t whose statistics stay finite in single precision"""
    if t in RANGE: return rnd_elem(r, t)
    return f32(r.choice([r.uniform(-1000, 1000), r.uniform(-1, 1) * 1e6, float(r.randint(-300, 300)), r.random() * 1e-3])) if t == 4 else r.choice([r.uniform(-1000, 1000), r.uniform(-1, 1) * 1e12, float(r.randint(-300, 300)), r.random() * 1e-5])
def nums(r, t, n):
    if t in (14, 15, 13) and r.random() < .4: return [enc(t, abs(num(r, 2))) for _ in range(n)]
    return [enc(t, num(r, t)) for _ in range(n)]
def smallf(r, n, den=4, lim=64): return [ef(r.randint(-lim, lim) / den) for _ in range(n)]
def refl(r, n, lim=100): return [ef(f32(r.uniform(-lim, lim))) for _ in range(n)]

# ---------------------------------------------------------------- C11
CONVS = {"uchar2short": 1, "uchar2int": 1, "uchar2float": 1, "uchar2ushort": 1, "float2char": 4, "float2uchar": 4, "float2short": 4, "float2ushort": 4, "float2int": 4, "float2uint": 4, "ushort2float": 12}
def fconv(r):
    c = r.random()
    if c < .3: return r.choice([-128, -129, -1, 0, 1, 127, 128, 254, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 300, -300]) + r.choice([0, .5, -.5, .25, -.25, .75, .4999, .0])
    if c < .5: return r.randint(-70000, 70000) / 2
    if c < .6: return r.choice([2147483520.0, 2147483648.0, -2147483648.0, -2147483904.0, 4294967040.0, 4294967296.0, 3e9, 2.5e9, 1e10, -1e10, 1e30, -1e30, math.inf, -math.inf, 1e-30, -1e-30, 16777217.0, 8388607.5, 4194303.5, -4194303.5])
    if c < .8: return r.uniform(-300, 300)
    return r.uniform(-70000, 70000)
def c11(r, n):
    out = []; fns = list(CONVS)
    for k in range(n):
        p = P("c11", k, r); fn = fns[k % len(fns)]; t = CONVS[fn]
        s, l, b = r.choice([(r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)), (1, 1, r.randint(1, 30)), (r.randint(1, 30), 1, 1), (3, 1, 4)])
        m = s * l * b; d = [ef(f32(fconv(r))) for _ in range(m)] if t == 4 else rnd_data(r, t, m)
        h = p.H(s, l, b, t, r.choice(["bsq", "bil", "bip"]), d, rnd_wave(r, b))
        p.op("convtype", fn=fn, h=h, g="q")
        if r.random() < .3: p.op("convtype", fn=fn, h=h, g="q2")
        if CONVS.get(fn) == 1 and fn in ("uchar2float",) or fn == "ushort2float": p.op("convtype", fn={"uchar2float": "float2uchar", "ushort2float": "float2ushort"}[fn], h="q", g="q3")
        if r.random() < .3: p.op("deleteH", h=h)
        if r.random() < .3:
            R, C = idims(r); ch = r.choice([1, 3]); q = p.S(R, C, 4, ch, [ef(f32(fconv(r))) for _ in range(R * C * ch)]); p.op("f2uS", h=q, g="q9")
        p.end(); out.append(p)
    for fn, t in CONVS.items():
        for t2 in r.sample([x for x in TYPES if x != t], 3):
            def f(p): p.op("convtype", fn=fn, h=p.H(2, 1, 2, t2, "bsq", rnd_data(r, t2, 4), None), g="q")
            case(out, "c11-bad-%s-%d" % (fn, t2), r, f)
    for t2 in (1, 2, 3, 5, 12): case(out, "c11-badS%d" % t2, r, lambda p: p.op("f2uS", h=p.S(2, 2, t2, 1, rnd_data(r, t2, 4)), g="q"))
    case(out, "c11-nullS", r, lambda p: p.op("f2uS", h="null", g="q"))
    p = P("c11-atof", 0, r); cnt = 0
    for k in range(max(60, n)):
        sg = r.choice([1, 1, -1]); ds = r.choice([str(r.randint(0, 9)), str(r.randint(0, 99999)), str(r.randint(0, 2147483647)), "00" + str(r.randint(0, 999))])[:9]
        x = 0; mant = ds
        if r.random() < .6: cut = r.randint(0, len(ds) - 1) if r.random() < .9 else len(ds); mant = (ds[:cut] or "0") + "." + ds[cut:] if ds[cut:] else ds; x = -(len(ds) - cut)
        txt = {1: r.choice(["", "", "+"]), -1: "-"}[sg] + mant
        if r.random() < .4:
            e = r.randint(-12, 12); txt += r.choice("eE") + r.choice(["", "+"] if e >= 0 else [""]) + str(e); x += e
        if r.random() < .15: txt = r.choice([" ", "  "]) + txt
        if abs(x) <= 25: p.op("atof", _text=txt, sg=sg, n=int(ds), x=x); cnt += 1
        if cnt % 40 == 39: p.end(); out.append(p); p = P("c11-atof", k + 1, r); cnt += 1
    p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C12
FT = ["binary", "binary_inv", "trunc", "tozero", "tozero_inv"]
def grey3(r, n):
    """three-channel pixels whose weighted grey is not within rounding of an integer"""
    d = []
    for _ in range(n):
        while 1:
            a = [r.randint(0, 255) for _ in range(3)] if r.random() < .7 else [r.randint(0, 60)] * 3
            if (114 * a[0] + 587 * a[1] + 299 * a[2]) % 1000 not in (0, 999, 1): break
        d += a
    return d
def c12(r, n):
    out = []
    for k in range(n):
        p = P("c12", k, r); a, R, C = img(p, r); g = garb(p, r, R, C)
        for _ in range(r.randint(1, 3)):
            c = r.random()
            d0 = None
            if c < .6:
                fn = FT[k % 5] if r.random() < .6 else "gen"; ty = r.choice([0, 1, 2, 3, 4]) if fn == "gen" else 0
                if r.random() < .5: th = r.randint(0, 255)
                else: th = r.choice([0, 254, 255, 127, 128])
                if not (fn == "trunc" or ty == 2) and r.random() < .1: th = r.choice([-1, 256, 300, -20])
                p.op("thresh", fn=fn, h=a, g=g, th=th, mx=r.choice([255, 1, 0, r.randint(0, 255)]), type=ty)
            elif c < .8: p.op("thresh", fn=r.choice(["otsu", "gen"]), h=a, g=g, th=r.randint(0, 255), mx=255, type=8)
            else: p.op("otsu", h=a)
        if r.random() < .3:
            R, C = idims(r, 7); p.op("otsu", h=p.S(R, C, 1, 3, grey3(r, R * C)))
        p.end(); out.append(p)
    # thresholds equal to a pixel value, through every mode
    for k in range(20):
        p = P("c12-eq", k, r); d = u8(r, 24); a = p.S(4, 6, 1, 1, d); g = garb(p, r, 4, 6)
        for fn in FT: p.op("thresh", fn=fn, h=a, g=g, th=r.choice(d), mx=r.choice([255, 9]), type=0)
        for ty in range(5): p.op("thresh", fn="gen", h=a, g=g, th=r.choice(d), mx=r.choice([255, 9]), type=ty)
        p.end(); out.append(p)
    for k, d in enumerate([[7] * 6, [0] * 6, [255] * 6, [0, 255] * 3, [254, 255] * 3, [0, 1] * 3, [10, 10, 10, 10, 10, 200], [0, 0, 0, 0, 0, 255], list(range(6)), [3, 3, 3, 9, 9, 9]]):
        p = P("c12-otsu", k, r); a = p.S(2, 3, 1, 1, d); g = garb(p, r, 2, 3); p.op("otsu", h=a); p.op("thresh", fn="otsu", h=a, g=g, th=0, mx=255, type=0); p.op("thresh", fn="gen", h=a, g=g, th=4, mx=9, type=8); p.end(); out.append(p)
    for k in range(3):
        p = P("c12-big", k, r); a = p.S(70, 61, 1, 1, u8(r, 4270)); g = garb(p, r, 70, 61); p.op("otsu", h=a); p.op("thresh", fn=FT[k], h=a, g=g, th=100, mx=200, type=0); p.op("thresh", fn="otsu", h=a, g=g, th=0, mx=255, type=0); p.end(); out.append(p)
    for fn in FT + ["otsu", "gen"]:
        case(out, "c12-size-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3)[0], g=garb(p, r, 3, 2), th=1, mx=2, type=r.choice([0, 1, 2, 3, 4, 8])))
        case(out, "c12-rows-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3)[0], g=garb(p, r, 3, 3), th=1, mx=2, type=r.choice([0, 1, 2, 3, 4, 8])))
        case(out, "c12-cols-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3)[0], g=garb(p, r, 2, 4), th=1, mx=2, type=r.choice([0, 1, 2, 3, 4, 8])))
        case(out, "c12-type-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3, 1, r.choice([2, 12, 3, 4]))[0], g=garb(p, r, 2, 3), th=1, mx=2, type=r.choice([0, 1, 2, 3, 4, 8])))
        case(out, "c12-ch-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3, 3)[0], g=garb(p, r, 2, 3, 3), th=1, mx=2, type=r.choice([0, 1, 2, 3, 4, 8])))
        case(out, "c12-null-" + fn, r, lambda p: p.op("thresh", fn=fn, h="null", g=garb(p, r, 2, 3), th=1, mx=2, type=0))
        case(out, "c12-nulld-" + fn, r, lambda p: p.op("thresh", fn=fn, h=img(p, r, 2, 3)[0], g="null", th=1, mx=2, type=0))
    case(out, "c12-otsunull", r, lambda p: p.op("otsu", h="null"))
    for t, ch in [(2, 1), (4, 1), (1, 2), (1, 4), (12, 3)]: case(out, "c12-otsut%d%d" % (t, ch), r, lambda p: p.op("otsu", h=img(p, r, 2, 3, ch, t)[0]))
    return out

# ---------------------------------------------------------------- C13
def c13(r, n):
    out = []
    for bt in (0, 1, 2, 3, 4):
        for L in (1, 2, 3, 4, 5, 7, 10):
            p = P("c13-int%d" % bt, L, r)
            for q in range(-4 * L - 3, 5 * L + 4): p.op("bint", p=q, len=L, bt=bt)
            for q in (-1000, 1000, -99999, 99999, -1000000, 1000000, r.randint(-9999, 9999)): p.op("bint", p=q, len=L, bt=bt)
            p.end(); out.append(p)
        p = P("c13-wide%d" % bt, 0, r)
        for _ in range(60): L = r.choice([17, 100, 640, 3000, 70000]); p.op("bint", p=r.choice([-1, L, -L, 2 * L - 1, 2 * L, -L - 1, r.randint(-5 * L, 5 * L)]), len=L, bt=bt)
        p.end(); out.append(p)
    for L, bt in [(0, 1), (-1, 2), (0, 0), (3, 5), (3, -1), (3, 7), (3, 16), (1, 9)]: case(out, "c13-bad%d_%d" % (L, bt), r, lambda p: p.op("bint", p=-1, len=L, bt=bt))
    for k in range(n):
        p = P("c13", k, r); t = TYPES[k % 9]; ch = r.choice([1, 1, 2, 3, 4]); bt = (k // 9) % 5
        R, C = r.randint(1, 5), r.randint(1, 5); a = p.S(R, C, t, ch, rnd_data(r, t, R * C * ch))
        w = [r.choice([0, 1, 2, 3, r.randint(0, 4), R + r.randint(0, 3), 2 * C + 1]) for _ in range(4)]
        p.op("border", h=a, g="q", top=w[0], bottom=w[1], left=w[2], right=w[3], bt=bt, val=r.randint(0, 255))
        if r.random() < .3: p.op("border", h="q", g="q2", top=1, bottom=0, left=0, right=2, bt=r.choice([0, 1, 2, 3, 4]), val=5)
        p.end(); out.append(p)
    case(out, "c13-null", r, lambda p: p.op("border", h="null", g="q", top=1, bottom=1, left=1, right=1, bt=1, val=0))
    for k in range(4): case(out, "c13-neg%d" % k, r, lambda p: p.op("border", h=img(p, r, 2, 3)[0], g="q", val=0, bt=1, **{x: (-1 if i == k else 1) for i, x in enumerate(["top", "bottom", "left", "right"])}))
    for bt in (5, -1, 9): case(out, "c13-mode%d" % bt, r, lambda p: p.op("border", h=img(p, r, 2, 3)[0], g="q", top=1, bottom=1, left=1, right=1, bt=bt, val=0))
    return out

# ---------------------------------------------------------------- C14
def c14(r, n):
    out = []
    for k in range(n):
        p = P("c14", k, r); t = TYPES[k % 9]; ch = r.choice([1, 1, 2, 3, 4]); c = k % 4
        if c < 2:
            R, C = idims(r); a = p.S(R, C, t, ch, rnd_data(r, t, R * C * ch)); g = garb(p, r, R, C, ch, t); g2 = garb(p, r, R, C, ch, t)
            x, y = a, g
            for _ in range(r.randint(1, 4)):
                fn = r.choice(["h", "v", "code"]); p.op("flip", fn=fn, h=x, g=y, code=r.choice([0, 1, -1, -1, 2, 7])); x, y = y, (g2 if y == g else g)
        elif c == 2:
            R, C = idims(r); a = p.S(R, C, t, ch, rnd_data(r, t, R * C * ch)); g = garb(p, r, C, R, ch, t); p.op("transS", h=a, g=g)
            if r.random() < .5: p.op("transS", h=g, g=garb(p, r, R, C, ch, t))
        else:
            s, l, b = r.randint(1, 6), r.randint(1, 6), r.randint(1, 4); h = p.H(s, l, b, t, "bsq", rnd_data(r, t, s * l * b), rnd_wave(r, b)); g = p.H(l, s, b, t, r.choice(["bsq", "bsq", "bil", "bip"]) if 0 else "bsq", rnd_data(r, t, s * l * b), rnd_wave(r, b)); p.op("transH", h=h, g=g)
            if r.random() < .5: p.op("transH", h=g, g=p.H(s, l, b, t, "bsq", rnd_data(r, t, s * l * b), None))
        p.end(); out.append(p)
    for fn in ("h", "v", "code"):
        for nm, kw in [("rows", dict(R=3, C=3)), ("cols", dict(R=2, C=4)), ("swap", dict(R=3, C=2))]:
            case(out, "c14-%s%s" % (nm, fn), r, lambda p: p.op("flip", fn=fn, h=img(p, r, 2, 3)[0], g=garb(p, r, kw["R"], kw["C"]), code=r.choice([0, 1, -1])))
        case(out, "c14-type" + fn, r, lambda p: p.op("flip", fn=fn, h=img(p, r, 2, 3)[0], g=garb(p, r, 2, 3, 1, 2), code=r.choice([0, 1, -1])))
        case(out, "c14-type2" + fn, r, lambda p: p.op("flip", fn=fn, h=img(p, r, 2, 3, 1, 3)[0], g=garb(p, r, 2, 3, 1, 4), code=r.choice([0, 1, -1])))
        case(out, "c14-ch" + fn, r, lambda p: p.op("flip", fn=fn, h=img(p, r, 2, 3, 1)[0], g=garb(p, r, 2, 3, 3), code=r.choice([0, 1, -1])))
        case(out, "c14-null" + fn, r, lambda p: p.op("flip", fn=fn, h="null", g=garb(p, r, 2, 3), code=0))
        case(out, "c14-nulld" + fn, r, lambda p: p.op("flip", fn=fn, h=img(p, r, 2, 3)[0], g="null", code=0))
    for kw in [(2, 3, 1, 1), (4, 2, 1, 1), (3, 3, 1, 1), (3, 2, 2, 1), (3, 2, 1, 2)]:
        case(out, "c14-trS%d%d%d%d" % kw, r, lambda p: p.op("transS", h=img(p, r, 2, 3)[0], g=garb(p, r, kw[0], kw[1], kw[3], kw[2])))
    for s, l, b, t, il in [(3, 2, 2, 1, "bsq"), (2, 3, 3, 1, "bsq"), (2, 3, 2, 2, "bsq"), (2, 4, 2, 1, "bsq"), (2, 3, 2, 1, "bil"), (2, 3, 2, 1, "bip")]:
        case(out, "c14-trH%d%d%d%d%s" % (s, l, b, t, il), r, lambda p: p.op("transH", h=p.H(3, 2, 2, 1, il, rnd_data(r, 1, 12), None), g=p.H(s, l, b, t, "bsq", rnd_data(r, t, s * l * b), None)))
    for t, R, C in [(1, 150, 211), (4, 67, 90)]:
        p = P("c14-big", R, r); a = p.S(R, C, t, 1, rnd_data(r, t, R * C)); g = garb(p, r, R, C, 1, t); p.op("flip", fn="code", h=a, g=g, code=-1); p.op("flip", fn="h", h=a, g=g, code=0); p.op("flip", fn="v", h=a, g=g, code=0); p.op("transS", h=a, g=garb(p, r, C, R, 1, t)); p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C15
def kern(r, n, lim=8, den=None):
    den = den or r.choice([1, 2, 4, 16])
    return [ef(r.randint(-lim, lim) / den) for _ in range(n)]
def gsplit(r, n):
    """a symmetric dyadic kernel with unit sum"""
    if n == 1: return [ef(1.0)]
    while 1:
        h = [r.randint(0, 8) for _ in range(n // 2)]; c = 64 - 2 * sum(h) if n % 2 else 0
        if n % 2 and c >= 0: break
        if n % 2 == 0: return [ef(1.0 / n)] * n if n in (2, 4, 8) else [ef(.5)] + [ef(0.0)] * (n - 2) + [ef(.5)]
    return [ef(x / 64) for x in h + [c] + h[::-1]]
def c15(r, n):
    out = []
    for k in range(n):
        p = P("c15", k, r); c = k % 6; bt = r.randint(0, 4); R, C = idims(r, 7)
        if c < 2:
            ch = r.choice([1, 1, 3]); kr, kc = r.choice([(3, 3), (1, 3), (3, 1), (5, 3), (3, 5), (1, 1), (7, 1), (2, 2), (4, 3), (5, 5)])
            a = p.S(R, C, 1, ch, u8(r, R * C * ch)); g = p.S(R, C, 4, ch, rnd_data(r, 4, R * C * ch)); K = p.buf(4, kern(r, kr * kc))
            p.op("filter2D", h=a, g=g, k=K, kr=kr, kc=kc, bt=bt)
            if r.random() < .4: p.op("filter2D", h=a, g=g, k=K, kr=kr, kc=kc, bt=r.randint(0, 4))
        elif c == 2:
            ch = r.choice([1, 3]); a = p.S(R, C, 1, ch, u8(r, R * C * ch)); g = garb(p, r, R, C, ch); kw, kh = r.choice([1, 3, 5, 7]), r.choice([1, 3, 5, 7])
            s1 = r.choice([[0, 0], [-1, 0]]); p.op("gauss", h=a, g=g, kw=kw, kh=kh, s1=s1, s2=r.choice([[0, 0], [-1, 0]]), bt=bt)
            if r.random() < .3: p.op("gauss", h=a, g=g, kw=3, kh=3, s1=[0, 0], s2=[0, 0], bt=r.randint(0, 4))
        elif c == 3:
            ch = r.choice([1, 1, 3]); R, C = r.randint(1, 5), r.randint(1, 5); a = p.S(R, C, 1, ch, u8(r, R * C * ch) if r.random() < .8 else [r.randint(0, 255)] * (R * C * ch)); g = garb(p, r, R, C, ch)
            if r.random() < .6: s1 = r.choice([[1, 0], [3, -1], [1, -1], [2, 0], [5, 0], [7, -2]]); s2 = r.choice([[0, 0], [1, 0], [3, -1], [7, -1]]); kw, kh = r.choice([1, 3, 5, 7, 9]), r.choice([1, 3, 5, 9])
            else: s1 = s2 = [0, 0]; kw, kh = r.choice([9, 11]), r.choice([9, 3, 13])
            p.op("gauss", h=a, g=g, kw=kw, kh=kh, s1=s1, s2=s2, bt=bt)
        elif c == 4:
            ch = r.choice([1, 1, 3]); a = p.S(R, C, 1, ch, u8(r, R * C * ch)); g = garb(p, r, R, C, ch); nx, ny = r.choice([1, 3, 3, 5, 7]), r.choice([1, 3, 5, 5])
            kx = p.S(1, nx, 4, 1, gsplit(r, nx) if r.random() < .6 else kern(r, nx, 6, 4)); ky = p.S(1, ny, 4, 1, gsplit(r, ny) if r.random() < .6 else kern(r, ny, 6, 4)); p.op("gaussk", h=a, g=g, kx=kx, ky=ky, bt=bt)
        else:
            a = p.S(R, C, 1, 1, u8(r, R * C)); g = garb(p, r, R, C)
            for _ in range(r.randint(1, 3)):
                if r.random() < .5: p.op("lap", h=a, g=g, ks=r.choice([1, 2, 3, 5]), bt=r.randint(0, 4))
                else: p.op("sobel", h=a, g=g, th=r.choice([0, 50, 100, 255, 400, r.randint(0, 1000)]), bt=r.randint(0, 4))
        p.end(); out.append(p)
    for m in range(max(20, n // 6)):
        p = P("c15-kernel", m, r)
        for _ in range(4):
            p.op("gkernel", n=r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]), sigma=r.choice([[0, 0], [-1, 0], [1, 0], [3, -1], [1, -1], [5, 0], [9, -3], [1, -2], [r.randint(1, 60), -3]]), kt=r.choice([4, 4, 5]), g=p.h("q"))
        p.end(); out.append(p)
    case(out, "c15-kn0", r, lambda p: p.op("gkernel", n=0, sigma=[1, 0], kt=4, g="q")); case(out, "c15-kt", r, lambda p: p.op("gkernel", n=3, sigma=[1, 0], kt=1, g="q")); case(out, "c15-kn", r, lambda p: p.op("gkernel", n=-3, sigma=[1, 0], kt=5, g="q"))
    for kw, kh in [(2, 3), (3, 2), (0, 3), (3, 0), (-1, 3), (3, -3), (4, 4)]: case(out, "c15-even%d%d" % (kw, kh), r, lambda p: p.op("gauss", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), kw=kw, kh=kh, s1=[0, 0], s2=[0, 0], bt=1))
    for bt in (5, -1): case(out, "c15-bt%d" % bt, r, lambda p: p.op("gauss", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), kw=3, kh=3, s1=[0, 0], s2=[0, 0], bt=bt))
    case(out, "c15-f2dtype", r, lambda p: p.op("filter2D", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), k=p.buf(4, kern(r, 9)), kr=3, kc=3, bt=1))
    case(out, "c15-f2dnull", r, lambda p: p.op("filter2D", h="null", g=garb(p, r, 3, 3, 1, 4), k=p.buf(4, kern(r, 9)), kr=3, kc=3, bt=1))
    case(out, "c15-lapnull", r, lambda p: p.op("lap", h="null", g=garb(p, r, 3, 3), ks=1, bt=1)); case(out, "c15-lapks", r, lambda p: p.op("lap", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), ks=0, bt=1))
    case(out, "c15-sobsize", r, lambda p: p.op("sobel", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 4), th=10, bt=1)); case(out, "c15-sobrow", r, lambda p: p.op("sobel", h=img(p, r, 3, 3)[0], g=garb(p, r, 4, 3), th=10, bt=1)); case(out, "c15-sobch", r, lambda p: p.op("sobel", h=img(p, r, 3, 3, 3)[0], g=garb(p, r, 3, 3, 3), th=10, bt=1)); case(out, "c15-sobbt", r, lambda p: p.op("sobel", h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), th=10, bt=6))
    case(out, "c15-gaussnull", r, lambda p: p.op("gauss", h="null", g=garb(p, r, 3, 3), kw=3, kh=3, s1=[0, 0], s2=[0, 0], bt=1))
    p = P("c15-big", 0, r); a = p.S(40, 33, 1, 1, u8(r, 1320)); g = garb(p, r, 40, 33); p.op("sobel", h=a, g=g, th=300, bt=4); p.op("lap", h=a, g=g, ks=1, bt=2); p.op("gauss", h=a, g=g, kw=5, kh=5, s1=[0, 0], s2=[0, 0], bt=4); p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C16
def c16(r, n):
    out = []
    for k in range(n):
        p = P("c16", k, r); R, C = idims(r, 10); a = p.S(R, C, 1, 1, u8(r, R * C)); g = garb(p, r, R, C)
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .4: p.op("median", h=a, g=g, size=r.choice([1, 3, 3, 5, 5, 7, 9]))
            elif c < .75: p.op("meanblur", h=a, g=g, size=r.choice([1, 3, 3, 5, 7, 9, 21]))
            else: q = p.S(R, C, 3, 1, rnd_data(r, 3, R * C)); p.op("integral", h=a, g=q)
        p.end(); out.append(p)
    for size in (0, 2, 4, -2, 8): case(out, "c16-even%d" % size, r, lambda p: p.op("median", h=img(p, r, 5, 5)[0], g=garb(p, r, 5, 5), size=size))
    for op in ("median", "meanblur"):
        case(out, "c16-null" + op, r, lambda p: p.op(op, h="null", g=garb(p, r, 5, 5), size=3)); case(out, "c16-nulld" + op, r, lambda p: p.op(op, h=img(p, r, 5, 5)[0], g="null", size=3))
    case(out, "c16-intnull", r, lambda p: p.op("integral", h="null", g=garb(p, r, 2, 2, 1, 3)))
    for t, ch, t2 in [(2, 1, 3), (1, 3, 3), (1, 1, 4), (1, 1, 1), (1, 1, 5)]: case(out, "c16-int%d%d%d" % (t, ch, t2), r, lambda p: p.op("integral", h=img(p, r, 2, 2, ch, t)[0], g=garb(p, r, 2, 2, ch if t2 == 3 else 1, t2)))
    p = P("c16-big", 0, r); a = p.S(41, 30, 1, 1, u8(r, 1230, 0)); g = garb(p, r, 41, 30); p.op("median", h=a, g=g, size=5); p.op("meanblur", h=a, g=g, size=7); p.op("integral", h=a, g=garb(p, r, 41, 30, 1, 3)); p.end(); out.append(p)
    p = P("c16-sat", 0, r); a = p.S(24, 24, 1, 1, [255] * 576); g = garb(p, r, 24, 24); p.op("median", h=a, g=g, size=17); p.op("meanblur", h=a, g=g, size=19); p.op("integral", h=a, g=garb(p, r, 24, 24, 1, 3)); p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C17
def c17(r, n):
    out = []
    for k in range(n):
        p = P("c17", k, r); R, C = r.choice([(r.randint(1, 10), r.randint(1, 10)), (r.randint(4, 12), r.randint(4, 12))]); dens = r.choice([.2, .5, .7, .85, .95])
        a = p.S(R, C, 1, 1, [1 if r.random() < dens else 0 for _ in range(R * C)]); g = garb(p, r, R, C)
        wd, ht = r.choice([1, 3, 3, 3, 5]), r.choice([1, 3, 3, 3, 5])
        c = r.random()
        if c < .35: d = p.D(wd, ht, None)
        elif c < .7: e = [r.randint(0, 1) for _ in range(wd * ht)]; e[(ht // 2) * wd + wd // 2] = r.choice([1, 1, 0]); d = p.D(wd, ht, e)
        else: d = p.D(wd, ht, [1 if (q // wd == ht // 2 or q % wd == wd // 2) else 0 for q in range(wd * ht)])
        for _ in range(r.randint(1, 3)):
            op = r.choice(["erode", "dilate", "open", "close"])
            if op in ("open", "close"): p.op(op, h=a, g=g, d=d, it=r.choice([1, 1, 2, 3, 5]))
            else: p.op(op, h=a, g=g, d=d)
        p.end(); out.append(p)
    for op in ("erode", "dilate", "open", "close"):
        kw = dict(it=1) if op in ("open", "close") else {}
        case(out, "c17-null" + op, r, lambda p: p.op(op, h="null", g=garb(p, r, 3, 3), d=p.D(3, 3, None), **kw)); case(out, "c17-nulle" + op, r, lambda p: p.op(op, h=img(p, r, 3, 3)[0], g=garb(p, r, 3, 3), d="null", **kw))
    p = P("c17-big", 0, r); a = p.S(60, 47, 1, 1, [1 if r.random() < .9 else 0 for _ in range(2820)]); g = garb(p, r, 60, 47); d = p.D(3, 5, None)
    for op in ("erode", "dilate"): p.op(op, h=a, g=g, d=d)
    p.op("open", h=a, g=g, d=d, it=2); p.op("close", h=a, g=g, d=d, it=2); p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C18
MV = {"double": 5, "uint": 13, "short": 2, "ushort": 12, "float": 4, "uchar": 1, "char": 1, "int": 3}
def c18(r, n):
    out = []; mv = list(MV)
    for k in range(n):
        p = P("c18", k, r); c = k % 4; t = TYPES[(k // 4) % 9]
        if c == 0:
            R, C = idims(r); d = nums(r, t, R * C)
            if r.random() < .2: d = [d[0]] * (R * C)
            a = p.S(R, C, t, 1, d); p.op("meanS", h=a); p.op("varS", h=a); p.op("meanS", h=a)
        elif c == 1:
            ch = r.choice([1, 3]); R, C = idims(r, 7); a = p.S(R, C, 1, ch, u8(r, R * C * ch)); b = p.buf(3, rnd_data(r, 3, 256)); p.op("hist", h=a, g=b)
            if r.random() < .3: p.op("hist", h=a, g=b)
        elif c == 2:
            ch = r.choice([1, 3]); R, C = idims(r, 7)
            if R * C == 1: C = 2
            a = p.S(R, C, 1, ch, u8(r, R * C * ch)); p.op("entropy", h=a); p.op("contrast", h=a)
        else:
            fn = mv[(k // 4) % 8]; t = MV[fn]; m = r.choice([1, 2, 5, 17, 100]); x = p.buf(t, nums(r, t, m)); p.op("meanv", fn=fn, x=x, n=m)
            if m > 2: p.op("meanv", fn=fn, x=x, n=m - 1)
        p.end(); out.append(p)
    # sums that leave 32 bits, constants, one dominant level
    for k in range(4):
        p = P("c18-large", k, r); t = [1, 12, 3, 13][k]; hi = RANGE[t][1]; a = p.S(90, 70, t, 1, [enc(t, hi - r.randint(0, 3)) for _ in range(6300)]); p.op("meanS", h=a); p.op("varS", h=a); p.end(); out.append(p)
    p = P("c18-large", 9, r); a = p.S(120, 150, 1, 1, [255] * 18000); b = p.buf(3, rnd_data(r, 3, 256)); p.op("meanS", h=a); p.op("hist", h=a, g=b); p.op("varS", h=a); p.end(); out.append(p)
    p = P("c18-const", 0, r); a = p.S(5, 5, 1, 1, [7] * 25); p.op("entropy", h=a); p.op("contrast", h=a); p.op("varS", h=a); p.end(); out.append(p)
    for op in ("meanS", "varS", "entropy", "contrast"): case(out, "c18-null" + op, r, lambda p: p.op(op, h="null"))
    case(out, "c18-nullh", r, lambda p: p.op("hist", h="null", g=p.buf(3, [0] * 256)))
    for op in ("meanS", "varS"):
        for ch in (2, 3): case(out, "c18-ch%d%s" % (ch, op), r, lambda p: p.op(op, h=img(p, r, 2, 2, ch)[0]))
    for op in ("entropy", "contrast", "hist"):
        for t, ch in [(2, 1), (4, 1), (1, 2), (12, 3)]: case(out, "c18-bad%d%d%s" % (t, ch, op), r, lambda p: p.op(op, h=img(p, r, 2, 2, ch, t)[0], **(dict(g=p.buf(3, [0] * 256)) if op == "hist" else {})))
    return out

# ---------------------------------------------------------------- C19
VT = [1, 2, 3, 4, 5, 14, 99]
def vel(r, t): return r.randint(0, 2**24 - 1) if t == 99 else enc(t, rnd_elem(r, t))
def c19(r, n):
    out = []
    for k in range(n):
        p = P("c19", k, r); vs = {}
        for j in range(r.choice([1, 1, 2])):
            h = "v%d" % j; t = VT[(k + j) % 7]; p.op("vnew", h=h, t=t); vs[h] = [t, 0]
        push = r.choice([.3, .5, .8])
        for _ in range(r.choice([10, 30, 80])):
            h = r.choice(list(vs)); t, m = vs[h]; c = r.random()
            def x(): return [vel(r, t)] if t != 99 else vel(r, t)
            if c < push: p.op("vec", h=h, fn="push", x=vel(r, t), **{}); vs[h][1] += 1
            else:
                c = r.random()
                if c < .2: p.op("vec", h=h, fn="pop"); vs[h][1] = max(0, m - 1)
                elif c < .45:
                    i = r.choice([0, m - 1, m, m + 1, r.randint(0, max(0, m))]); i = max(0, i)
                    p.op("vec", h=h, fn="erase", i=i); vs[h][1] -= 1 if i < m else 0
                elif c < .5: p.op("vec", h=h, fn="free"); vs[h][1] = 0
                elif c < .56: q = r.choice([0, 1, 2, 7, 33]); p.op("vec", h=h, fn="init", x=vel(r, t), n=q); vs[h][1] = q
                elif c < .8: p.op("vec", h=h, fn=r.choice(["size", "cap", "empty", "iter"]))
                elif m > 0: p.op("vec", h=h, fn="get", i=r.randint(0, m - 1)) if r.random() < .6 else p.op("vec", h=h, fn="set", i=r.randint(0, m - 1), x=vel(r, t))
        for h in vs: p.op("vec", h=h, fn="size"); p.op("vdel", h=h)
        p.end(); out.append(p)
    for t in VT:
        p = P("c19-long", t, r); p.op("vnew", h="v", t=t)
        for i in range(140): p.op("vec", h="v", fn="push", x=vel(r, t))
        p.op("vec", h="v", fn="cap"); m = 140
        for i in range(90): q = r.randint(0, m); p.op("vec", h="v", fn="erase", i=q); m -= q < m
        for i in range(30): p.op("vec", h="v", fn="push", x=vel(r, t))
        p.op("vec", h="v", fn="size"); p.op("vdel", h="v"); p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C20
BT = {"char": 1, "uchar": 1, "short": 2, "ushort": 12, "int": 3, "uint": 13, "float": 4, "double": 5}
LIM = {"char": (-4, 4), "uchar": (0, 5), "short": (-60, 60), "ushort": (0, 85), "int": (-15000, 15000), "uint": (0, 21000)}
def mat(r, ty, n):
    t = BT[ty]
    if ty in ("float", "double"): return [enc(t, f32(r.uniform(-50, 50)) if ty == "float" else r.uniform(-50, 50)) if r.random() < .7 else enc(t, float(r.randint(-9, 9))) for _ in range(n)]
    lo, hi = LIM[ty]; return [enc(t, r.randint(lo, hi) % 256 if ty == "char" else r.randint(lo, hi)) for _ in range(n)]
def det(A):
    A = [row[:] for row in A]; n = len(A); d = Fraction(1)
    for i in range(n):
        q = next((j for j in range(i, n) if A[j][i] != 0), None)
        if q is None: return Fraction(0)
        if q != i: A[i], A[q] = A[q], A[i]; d = -d
        d *= A[i][i]
        for j in range(i + 1, n):
            f = A[j][i] / A[i][i]
            for x in range(i, n): A[j][x] -= f * A[i][x]
    return d
def inv(A):
    n = len(A); M = [list(map(Fraction, A[i])) + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        q = next((j for j in range(i, n) if M[j][i] != 0), None)
        if q is None: return None
        M[i], M[q] = M[q], M[i]; v = M[i][i]; M[i] = [x / v for x in M[i]]
        for j in range(n):
            if j != i and M[j][i]: f = M[j][i]; M[j] = [a - f * b for a, b in zip(M[j], M[i])]
    return [row[n:] for row in M]
def invertible(r, m, lim=100):
    while 1:
        c = r.random()
        if c < .25:
            pm = list(range(m)); r.shuffle(pm); A = [[(r.choice([1, 2, -1, 3, 0.5]) if pm[i] == j else 0) for j in range(m)] for i in range(m)]
        elif c < .6: A = [[r.choice([0, 0, 1, -1, 2, -3, 4, .5]) for _ in range(m)] for i in range(m)]
        else: A = [[r.randint(-6, 6) for _ in range(m)] for i in range(m)]
        B = inv([[Fraction(x) for x in row] for row in A])
        if B is None: continue
        if max(sum(abs(x) for x in row) for row in A) * max(sum(abs(x) for x in row) for row in B) <= lim: return A
def flat(A): return [ef(float(x)) for row in A for x in row]
def c20(r, n):
    out = []; tys = list(BT)
    for k in range(n):
        p = P("c20", k, r); c = k % 6; ty = tys[(k // 6) % 8]; t = BT[ty]
        m, q, w = r.randint(1, 5), r.randint(1, 7), r.randint(1, 5)
        if k % 18 == 0: m, q, w = r.choice([(1, 7, 1), (7, 1, 6), (1, 1, 1), (6, 2, 7)])
        ex = r.choice([0, 0, 3])
        if c < 3:
            for a in range(3):      # wide, tall and arbitrary shapes of each operation and type
                if k % 18 or a: m, q, w = [(r.randint(1, 3), r.randint(3, 7), r.randint(1, 5)), (r.randint(3, 6), r.randint(1, 3), r.randint(2, 5)), (r.randint(1, 5), r.randint(1, 7), r.randint(1, 5))][a]
                if c == 0: x = p.buf(t, mat(r, ty, m * q)); y = p.buf(t, mat(r, ty, q * w)); z = p.buf(t, rnd_data(r, t, m * w + ex)); p.op("matmul", ty=ty, x=x, y=y, z=z, m=m, k=q, n=w)
                elif c == 1: x = p.buf(t, rnd_data(r, t, m * q)); z = p.buf(t, rnd_data(r, t, m * q + ex)); p.op("mattrans", ty=ty, x=x, z=z, m=m, n=q)
                else:
                    if ty == "double": ty, t = "float", 4
                    x = p.buf(t, mat(r, ty, m * q)); y = p.buf(t, mat(r, ty, q * w)); z = p.buf(t, rnd_data(r, t, m * w + ex)); p.op("matcorr", ty=ty, x=x, y=y, z=z, m=m, k=q, n=w)
        elif c == 3:
            m = r.randint(1, 6); A = invertible(r, m); x = p.buf(4, flat(A)); z = p.buf(4, rnd_data(r, 4, m * m + ex)); p.op("invert", x=x, z=z, m=m)
            if r.random() < .3: p.op("invert", x=x, z=z, m=m)
        elif c == 4:
            m = r.randint(2, 6); x = p.buf(4, rnd_data(r, 4, m * q)); a, b = r.sample(range(m), 2); p.op("swaprows", x=x, m=m, n=q, r1=a, r2=b)
            z = p.buf(4, rnd_data(r, 4, m * m + ex)); p.op("identity", x=z, m=m)
        else:
            w = r.choice([1, 2, 3, 8, 30]); d = refl(r, w) if r.random() < .6 else smallf(r, w, 1, 3); x = p.buf(4, d + refl(r, ex)); p.op("norm", x=x, n=w); p.op("sortdown", x=x, n=w)
            if r.random() < .4: p.op("sortdown", x=x, n=w)
        p.end(); out.append(p)
    # correlation and product of values at the top of the range
    for ty in ("uint", "int", "short", "ushort", "uchar", "char"):
        t = BT[ty]; p = P("c20-top", t if ty != "char" else 100, r); hi = {"uint": 65535, "int": 46340, "short": 181, "ushort": 255, "uchar": 15, "char": 11}[ty]
        x = p.buf(t, [enc(t, hi)]); y = p.buf(t, [enc(t, hi)]); z = p.buf(t, rnd_data(r, t, 1)); p.op("matmul", ty=ty, x=x, y=y, z=z, m=1, k=1, n=1); p.op("matcorr", ty=ty, x=x, y=y, z=z, m=1, k=1, n=1); p.end(); out.append(p)
    for a, b in [(-1, 0), (0, 3), (3, 0), (0, -1), (1, 1)]: case(out, "c20-swap%d_%d" % (a, b), r, lambda p: p.op("swaprows", x=p.buf(4, refl(r, 6)), m=3, n=2, r1=a, r2=b))
    return out

# ---------------------------------------------------------------- C22
def c22(r, n):
    out = []
    for k in range(n):
        p = P("c22", k, r); R, C = idims(r); c = k % 4
        if c == 0: a = p.S(R, C, 1, 1, u8(r, R * C)); p.op("gray2rgb", h=a, g="q"); p.op("rgb2gray", h="q", g="q2", m=r.choice([0, 1, 2, 3])); p.op("bgr2rgb", h="q", g=garb(p, r, R, C, 3))
        elif c == 1: a = p.S(R, C, 1, 1, [r.randint(0, 1) for _ in range(R * C)]); p.op("bin2rgb", h=a, g="q")
        elif c == 2:
            a = p.S(R, C, 1, 3, u8(r, R * C * 3))
            for m in r.sample([0, 1, 2], 2): p.op("rgb2gray", h=a, g=p.h("q"), m=m)
        else: a = p.S(R, C, 1, 3, u8(r, R * C * 3)); g = garb(p, r, R, C, 3); p.op("bgr2rgb", h=a, g=g); p.op("bgr2rgb", h=g, g=garb(p, r, R, C, 3))
        p.end(); out.append(p)
    p = P("c22-grid", 0, r); vals = [0, 1, 2, 84, 85, 127, 128, 254, 255]; d = [x for a in vals for b in vals for c in vals for x in (a, b, c)]; a = p.S(27, 27, 1, 3, d)
    for m in (0, 1, 2): p.op("rgb2gray", h=a, g=p.h("q"), m=m)
    p.end(); out.append(p)
    p = P("c22-grid", 1, r); a = p.S(16, 16, 1, 1, list(range(256))); p.op("gray2rgb", h=a, g="q")
    for m in (0, 1, 2): p.op("rgb2gray", h="q", g=p.h("q"), m=m)
    p.end(); out.append(p)
    for op in ("gray2rgb", "bin2rgb"):
        for ch in (2, 3, 4): case(out, "c22-ch%d%s" % (ch, op), r, lambda p: p.op(op, h=img(p, r, 2, 3, ch)[0], g="q"))
    for ch in (1, 2, 4):
        case(out, "c22-gch%d" % ch, r, lambda p: p.op("rgb2gray", h=img(p, r, 2, 3, ch)[0], g="q", m=1)); case(out, "c22-sch%d" % ch, r, lambda p: p.op("bgr2rgb", h=img(p, r, 2, 3, ch)[0], g=garb(p, r, 2, 3, ch)))
    case(out, "c22-ssize", r, lambda p: p.op("bgr2rgb", h=img(p, r, 2, 3, 3)[0], g=garb(p, r, 3, 2, 3))); case(out, "c22-stype", r, lambda p: p.op("bgr2rgb", h=img(p, r, 2, 3, 3, 2)[0], g=garb(p, r, 2, 3, 3, 2)))
    case(out, "c22-snull", r, lambda p: p.op("bgr2rgb", h="null", g=garb(p, r, 3, 2, 3)))
    return out

# ---------------------------------------------------------------- C24
def spec(r, n, neg=.3):
    while 1:
        d = [f32(r.uniform(-50 if r.random() < neg else 0, 100)) for _ in range(n)] if r.random() < .7 else [float(r.randint(-3, 5)) for _ in range(n)]
        if any(d): return d
def c24(r, n):
    out = []
    for k in range(n):
        p = P("c24", k, r); c = k % 5; b = r.choice([1, 2, 3, 5, 8, 20])
        if c == 0:
            x = spec(r, b); q = r.random()
            if q < .25: y = [2.0 * v for v in x]
            elif q < .35: y = [-0.5 * v for v in x]
            elif q < .5: y = [f32(v * r.uniform(.99, 1.01)) for v in x]
            elif q < .6 and b == 2: y = [-x[1], x[0]]
            else: y = spec(r, b)
            bx, by = p.buf(4, [ef(v) for v in x]), p.buf(4, [ef(v) for v in y]); p.op("sam", x=bx, y=by, n=b); p.op("sam", x=by, y=bx, n=b); p.op("eucl", x=bx, y=by, n=b)
            if b > 2 and any(x[:b - 1]) and any(y[:b - 1]): p.op("sam", x=bx, y=by, n=b - 1)
        elif c == 1:
            s, l = r.randint(1, 4), r.randint(1, 4); ref = spec(r, b, 0); d = []
            for _ in range(s * l):
                q = r.random(); d += [2.0 * v for v in ref] if q < .3 else [f32(v * r.uniform(.7, 1.3)) + (0 if any(ref) else 1) for v in ref] if q < .6 else spec(r, b)
            h = p.H(s, l, b, 4, "bip", [ef(f32(v)) for v in d], rnd_wave(r, b)); x = p.buf(4, [ef(v) for v in ref]); p.op("sammatch", h=h, x=x, th=r.choice([[1, -3], [1, -2], [3, -5], [1, -6], [3, -1], [1, 1], [1, 2]]), g="q")
        elif c == 2:
            m = r.randint(1, 12); vals = [r.choice([r.randint(0, 999), round(r.uniform(0, 2), 4), round(r.uniform(-9, 9), 2), r.randint(-5, 5)]) for _ in range(m)]
            txt = r.choice(["", " ", "\n"]) + r.choice([" ", "\n", "  ", "\t", "\r\n", " \n"]).join(map(str, vals)) + r.choice(["", "\n", " "])
            if r.random() < .1: txt += " end"
            p.op("readspec", path="sp.txt", _text=txt, has=1, n=r.choice([m, m, max(1, m - 1), m + 2]), g="q", vals=[ef(f32(float(v))) for v in vals], _m=m)
        elif c == 3:
            s, l = r.randint(1, 5), r.randint(1, 5); h = p.H(s, l, b, 4, "bip", refl(r, s * l * b), rnd_wave(r, b)); g = p.S(l, s, 4, 1, refl(r, s * l)); p.op("meanH", h=h, g=g)
        else:
            x = [ef(v) for v in spec(r, b)]; bx = p.buf(4, x); p.op("eucl", x=bx, y=bx, n=b); p.op("sam", x=bx, y=bx, n=b); p.op("eucl", x=bx, y=p.buf(4, refl(r, b)), n=b)
        p.end(); out.append(p)
    case(out, "c24-samnull", r, lambda p: p.op("sam", x="null", y=p.buf(4, refl(r, 3)), n=3)); case(out, "c24-samnull2", r, lambda p: p.op("sam", y="null", x=p.buf(4, refl(r, 3)), n=3))
    for il, t in [("bsq", 4), ("bil", 4), ("bip", 5), ("bip", 1), ("bip", 3)]: case(out, "c24-match%s%d" % (il, t), r, lambda p: p.op("sammatch", h=p.H(2, 2, 3, t, il, rnd_data(r, t, 12), None), x=p.buf(4, refl(r, 3)), th=[1, -2], g="q"))
    case(out, "c24-matchnull", r, lambda p: p.op("sammatch", h="null", x=p.buf(4, refl(r, 3)), th=[1, -2], g="q")); case(out, "c24-matchnull2", r, lambda p: p.op("sammatch", h=p.H(2, 2, 3, 4, "bip", refl(r, 12), None), x="null", th=[1, -2], g="q"))
    for il, t, R, C, t2 in [("bsq", 4, 3, 2, 4), ("bil", 4, 3, 2, 4), ("bip", 2, 3, 2, 4), ("bip", 4, 2, 3, 4), ("bip", 4, 3, 3, 4), ("bip", 4, 3, 2, 5), ("bip", 4, 3, 2, 3)]: case(out, "c24-mean%s%d%d%d%d" % (il, t, R, C, t2), r, lambda p: p.op("meanH", h=p.H(2, 3, 2, t, il, rnd_data(r, t, 12), None), g=garb(p, r, R, C, 1, t2)))
    case(out, "c24-meannull", r, lambda p: p.op("meanH", h="null", g=garb(p, r, 2, 2, 1, 4)))
    case(out, "c24-nofile", r, lambda p: p.op("readspec", path="no", _text="", has=0, n=3, g="q", vals=[])); case(out, "c24-badlen", r, lambda p: p.op("readspec", path="sp", _text="1 2", has=1, n=0, g="q", vals=[[1, 0], [1, 1]]))
    return out

# ---------------------------------------------------------------- C25
def c25(r, n):
    out = []
    for k in range(n):
        p = P("c25", k, r); s, l, b = r.choice([(r.randint(1, 5), r.randint(1, 5), r.randint(1, 5)), (1, 3, 7), (7, 1, 2), (2, 6, 1)]); w = rnd_wave(r, b); m = s * l * b
        if k % 2: h = p.H(s, l, b, 12, "bip", rnd_data(r, 12, m), w); q = p.buf(4, refl(r, s * b, 8)); p.op("relrad", h=h, k=q, g="q")
        else: h = p.H(s, l, b, 4, "bip", refl(r, m), w); q = p.buf(4, refl(r, b, 8)); p.op("absrad", h=h, k=q, g="q")
        if r.random() < .3: p.op("absrad", h="q", k=p.buf(4, refl(r, b, 8)), g="q2")
        p.end(); out.append(p)
    for op, t in (("relrad", 12), ("absrad", 4)):
        for il in ("bsq", "bil"): case(out, "c25-%s%s" % (op, il), r, lambda p: p.op(op, h=p.H(2, 2, 2, t, il, rnd_data(r, t, 8), None), k=p.buf(4, refl(r, 4)), g="q"))
        for t2 in (1, 2, 3, 5, 16 - t): case(out, "c25-%st%d" % (op, t2), r, lambda p: p.op(op, h=p.H(2, 2, 2, t2, "bip", rnd_data(r, t2, 8), None), k=p.buf(4, refl(r, 4)), g="q"))
        case(out, "c25-%snull" % op, r, lambda p: p.op(op, h="null", k=p.buf(4, refl(r, 4)), g="q")); case(out, "c25-%sknull" % op, r, lambda p: p.op(op, h=p.H(2, 2, 2, t, "bip", rnd_data(r, t, 8), None), k="null", g="q"))
    return out

# ---------------------------------------------------------------- C32
def c32(r, n):
    out = []
    for k in range(n):
        p = P("c32", k, r); R, C = r.randint(2, 7), r.randint(2, 7); ch = r.choice([1, 1, 3]); a = p.S(R, C, 1, ch, [r.randint(0, 255)] * (R * C * ch) if r.random() < .15 else u8(r, R * C * ch))
        if k % 2: g = garb(p, r, (R + 1) // 2, (C + 1) // 2, ch); p.op("pyrdown", h=a, g=g); R2, C2 = (R + 1) // 2, (C + 1) // 2
        else: g = garb(p, r, 2 * R, 2 * C, ch); p.op("pyrup", h=a, g=g); R2, C2 = 2 * R, 2 * C
        if r.random() < .3 and R2 >= 2 and C2 >= 2: p.op("pyrdown", h=g, g=garb(p, r, (R2 + 1) // 2, (C2 + 1) // 2, ch))
        p.end(); out.append(p)
    for op, ok in (("pyrdown", (2, 3)), ("pyrup", (8, 10))):
        for dr, dc in [(1, 0), (0, 1), (-1, 0), (0, -1)]: case(out, "c32-%s%d%d" % (op, dr, dc), r, lambda p: p.op(op, h=img(p, r, 4, 5)[0], g=garb(p, r, ok[0] + dr, ok[1] + dc)))
        case(out, "c32-%stype" % op, r, lambda p: p.op(op, h=img(p, r, 4, 5, 1, 2)[0], g=garb(p, r, *ok, 1, 2))); case(out, "c32-%stype2" % op, r, lambda p: p.op(op, h=img(p, r, 4, 5)[0], g=garb(p, r, *ok, 1, 2)))
        case(out, "c32-%sch" % op, r, lambda p: p.op(op, h=img(p, r, 4, 5)[0], g=garb(p, r, *ok, 3)))
        case(out, "c32-%snull" % op, r, lambda p: p.op(op, h="null", g=garb(p, r, 2, 2))); case(out, "c32-%snulld" % op, r, lambda p: p.op(op, g="null", h=garb(p, r, 2, 2)))
    for k, (R, C) in enumerate([(1, 4), (4, 1), (1, 1), (1, 2), (2, 1)]):
        case(out, "c32-tinyd%d" % k, r, lambda p: p.op("pyrdown", h=img(p, r, R, C)[0], g=garb(p, r, (R + 1) // 2, (C + 1) // 2)))
        case(out, "c32-tinyu%d" % k, r, lambda p: p.op("pyrup", h=img(p, r, R, C)[0], g=garb(p, r, 2 * R, 2 * C)))
    return out

# ---------------------------------------------------------------- C33
def c33(r, n):
    out = []
    for k in range(n):
        p = P("c33", k, r); R, C = idims(r); ch = r.choice([1, 1, 2, 3, 4]); m = R * C * ch; c = k % 3
        if c == 0: x = u8(r, m); y = [r.randint(0, 255 - v) for v in x]; p.op("addS", fn="uchar", h=p.S(R, C, 1, ch, x), h2=p.S(R, C, 1, ch, y), g=garb(p, r, R, C, ch))
        elif c == 1: p.op("addS", fn="float", h=p.S(R, C, 4, ch, refl(r, m)), h2=p.S(R, C, 4, ch, refl(r, m)), g=p.S(R, C, 4, ch, refl(r, m)))
        else: p.op("logS", h=p.S(R, C, 4, ch, [ef(f32(r.choice([r.uniform(.01, 10), r.uniform(1, 1e6), 1.0, r.random() * 1e-6 + 1e-9]))) for _ in range(m)]), g=p.S(R, C, 4, ch, refl(r, m)))
        p.end(); out.append(p)
    for fn, t in (("uchar", 1), ("float", 4)):
        for w in ("h", "h2", "g"):
            def f(p, kw):
                a = {x: p.S(kw[x][0], kw[x][1], kw[x][2], kw[x][3], [Z(kw[x][2])] * (kw[x][0] * kw[x][1] * kw[x][3])) for x in ("h", "h2", "g")}; p.op("addS", fn=fn, **a)
            base = {x: (2, 3, t, 1) for x in ("h", "h2", "g")}
            for bad in [(3, 2, t, 1), (2, 4, t, 1), (3, 3, t, 1), (2, 3, 5 if t == 4 else 2, 1), (2, 3, t, 3)]: case(out, "c33-%s%s%d%d%d%d" % (fn, w, *bad), r, lambda p: f(p, dict(base, **{w: bad})))
            def g(p): a = {x: p.S(2, 3, t, 1, [Z(t)] * 6) for x in ("h", "h2", "g")}; a[w] = "null"; p.op("addS", fn=fn, **a)
            case(out, "c33-null%s%s" % (fn, w), r, g)
    for R, C, t, ch, t0 in [(3, 2, 4, 1, 4), (2, 4, 4, 1, 4), (2, 3, 5, 1, 4), (2, 3, 4, 3, 4), (2, 3, 4, 1, 3)]: case(out, "c33-log%d%d%d%d%d" % (R, C, t, ch, t0), r, lambda p: p.op("logS", h=p.S(2, 3, t0, 1, [enc(t0, 1)] * 6), g=garb(p, r, R, C, ch, t)))
    return out
def Z(t): return enc(t, 0)

# ---------------------------------------------------------------- C34
def eigmat(r, m):
    """integer matrix with distinct integer eigenvalues (also diagonal and triangular ones)"""
    while 1:
        ev = r.sample(range(-6, 9), m)
        z = r.random(); S = [[Fraction(r.randint(-2, 2) if z < .6 or (z < .75 and i <= j) else 0) if i != j or z < .6 else Fraction(1) for j in range(m)] for i in range(m)]
        if abs(det(S)) != 1: continue
        T = inv(S); A = [[sum(S[i][k] * ev[k] * T[k][j] for k in range(m)) for j in range(m)] for i in range(m)]
        if max(abs(x) for row in A for x in row) <= 40: return A, ev
def c34(r, n):
    out = []
    for k in range(n):
        p = P("c34", k, r); m = r.randint(1, 5)
        if k % 2: A = invertible(r, m, 60); x = p.buf(4, flat(A)); ex = r.choice([0, 2]); q = p.buf(4, refl(r, m * m + ex)); w = p.buf(4, refl(r, m * m + ex)); p.op("qr", x=x, q=q, r=w, m=m)
        else: A, ev = eigmat(r, m); r.shuffle(ev); x = p.buf(4, flat(A)); e = p.buf(4, [ef(float(v)) for v in ev]); v = p.buf(4, refl(r, m * m)); p.op("eigvec", x=x, v=v, ev=e, m=m)
        p.end(); out.append(p)
    return out
ALL = [c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c22, c24, c25, c32, c33, c34]
