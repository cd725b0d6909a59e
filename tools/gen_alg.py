"""Program generators for the algorithm and highgui modules."""
from hv import *
from gen_proc import idims, u8, img, garb, P, case, num, nums, smallf, refl
ILS = ["bsq", "bil", "bip"]
def fimg(p, r, R, C, den=4, lim=800): return p.S(R, C, 4, 1, [ef(r.randint(-lim, lim) / den) for _ in range(R * C)])
def u16(r, n):
    m = r.random()
    return [r.randint(0, 65535) for _ in range(n)] if m < .6 else [r.choice([0, 65535, 256, 255, 1]) for _ in range(n)] if m < .8 else [r.randint(0, 300) for _ in range(n)]

# ---------------------------------------------------------------- C23 Fourier
def smooth(lim=2125764000):
    out = []
    a = 1
    while a <= lim:
        b, k = a, 0
        while b <= lim and k <= 14:
            c = b
            while c <= lim: out.append(c); c *= 5
            b *= 3; k += 1
        a *= 2
    return sorted(out)
def fdims(r):
    c = r.random()
    if c < .3: n = r.randint(1, 6); return n, n
    if c < .9: return r.randint(1, 8), r.randint(1, 8)
    return r.choice([(1, 16), (16, 1), (2, 12), (11, 2), (1, 13), (3, 9)])
def c23(r, n):
    out = []
    for k in range(n):
        p = P("c23", k, r); R, C = fdims(r); t = r.choice([1, 12]); N = R * C
        def src(): return p.S(R, C, t, 1, u8(r, N) if t == 1 else u16(r, N))
        m = k % 6
        if m < 2: # there and back
            h = src(); re, im = garb(p, r, R, C, t=4), garb(p, r, R, C, t=4); p.op("dft", fn=r.choice(["gen", "uchar" if t == 1 else "ushort"]), h=h, g=re, g2=im)
            g = garb(p, r, R, C, t=t); p.op("idft", fn=r.choice(["gen", "uchar" if t == 1 else "ushort"]), h=re, h2=im, g=g)
            if r.random() < .4: q = garb(p, r, R, C, t=4); p.op("magnitude", h=re, h2=im, g=q)
            if r.random() < .3: p.op("dft", fn="gen", h=g, g=re, g2=im)
        elif m == 2: # back from arbitrary coefficients
            re, im, g = fimg(p, r, R, C), fimg(p, r, R, C), garb(p, r, R, C, t=t); p.op("idft", fn=r.choice(["gen", "uchar" if t == 1 else "ushort"]), h=re, h2=im, g=g)
        elif m == 3:
            h = p.S(R, C, 1, 1, u8(r, N)); g = garb(p, r, R, C); p.op("spectrum", h=h, g=g)
        elif m == 4:
            re, im, g = fimg(p, r, R, C), fimg(p, r, R, C), garb(p, r, R, C, t=4); p.op("magnitude", h=re, h2=im, g=g)
            if r.random() < .3: p.op("magnitude", h=re, h2=re, g=g)
        else:
            s = smooth(); v = []
            for _ in range(30):
                x = r.choice(s) if r.random() < .7 else r.randint(1, 2125764000) if r.random() < .3 else r.randint(1, 5000)
                v += [x - 1, x, min(x + 1, 2147483647)]
            p.op("optdft", n=v)
        p.end(); out.append(p)
    p = Prog("c23-sizes"); s = smooth()
    for a in range(0, 2500, 250): p.op("optdft", n=list(range(a, a + 250)))
    for a in range(0, len(s), 80): p.op("optdft", n=[y for x in s[a:a + 80] for y in (x - 1, x, x + 1)])
    p.op("optdft", n=[0, 1, 2, -1, -2147483648, 2147483647, 2125764000, 2125763999, 2125764001, 2000000000, 2097152000])
    p.end(); out.append(p)
    bad = 0
    for (a, b, c) in [((2, 3), (2, 4), (2, 3)), ((2, 3), (2, 3), (3, 3)), ((2, 3), (2, 3), (2, 2)), ((3, 2), (2, 3), (2, 3))]:
        for fn in ("gen", "uchar"):
            case(out, "c23-dim%d" % bad, r, lambda p: p.op("dft", fn=fn, h=p.S(a[0], a[1], 1, 1, [5] * 6), g=p.S(b[0], b[1], 4), g2=p.S(c[0], c[1], 4)))
            case(out, "c23-idim%d" % bad, r, lambda p: p.op("idft", fn=fn, h=p.S(b[0], b[1], 4), h2=p.S(c[0], c[1], 4), g=p.S(a[0], a[1], 1, 1, [5] * 6)))
            bad += 1
        case(out, "c23-mdim%d" % bad, r, lambda p: p.op("magnitude", h=p.S(a[0], a[1], 4), h2=p.S(b[0], b[1], 4), g=p.S(c[0], c[1], 4)))
    for t in (2, 3, 4, 5, 13, 14, 15):
        case(out, "c23-t%d" % t, r, lambda p: p.op("dft", fn="gen", h=p.S(2, 3, t, 1, rnd_data(r, t, 6)), g=garb(p, r, 2, 3, t=4), g2=garb(p, r, 2, 3, t=4)))
        case(out, "c23-it%d" % t, r, lambda p: p.op("idft", fn="gen", h=fimg(p, r, 2, 3), h2=fimg(p, r, 2, 3), g=garb(p, r, 2, 3, t=t)))
        if t != 4:
            for fn in ("gen", "uchar", "ushort"): case(out, "c23-out%d%s" % (t, fn), r, lambda p: p.op("dft", fn=fn, h=p.S(2, 3, 12 if fn == "ushort" else 1, 1, [9] * 6), g=p.S(2, 3, t), g2=p.S(2, 3, 4)))
            for fn in ("gen", "uchar", "ushort"):
                case(out, "c23-both%d%s" % (t, fn), r, lambda p: p.op("idft", fn=fn, h=p.S(2, 3, t), h2=p.S(2, 3, t), g=p.S(2, 3, 12 if fn == "ushort" else 1)))
                case(out, "c23-bout%d%s" % (t, fn), r, lambda p: p.op("dft", fn=fn, h=p.S(2, 3, 12 if fn == "ushort" else 1, 1, [9] * 6), g=p.S(2, 3, t), g2=p.S(2, 3, t)))
            case(out, "c23-mb%d" % t, r, lambda p: p.op("magnitude", h=p.S(2, 3, t), h2=p.S(2, 3, t), g=p.S(2, 3, 4)))
            case(out, "c23-mt%d" % t, r, lambda p: p.op("magnitude", h=p.S(2, 3, 4), h2=p.S(2, 3, t), g=p.S(2, 3, 4)))
            case(out, "c23-mt3%d" % t, r, lambda p: p.op("magnitude", h=p.S(2, 3, t), h2=p.S(2, 3, 4), g=p.S(2, 3, 4)))
    for fn in ("gen", "uchar", "ushort"):
        t = 12 if fn == "ushort" else 1
        for nl in range(3):
            def f(p):
                q = [p.S(2, 2, t), p.S(2, 2, 4), p.S(2, 2, 4)]; q[nl] = "null"; p.op("dft", fn=fn, h=q[0], g=q[1], g2=q[2])
            case(out, "c23-null%s%d" % (fn, nl), r, f)
        case(out, "c23-ch%s" % fn, r, lambda p: p.op("dft", fn=fn, h=p.S(2, 2, t, 3), g=p.S(2, 2, 4), g2=p.S(2, 2, 4)))
        case(out, "c23-chg%s" % fn, r, lambda p: p.op("dft", fn=fn, h=p.S(2, 2, t), g=p.S(2, 2, 4, 2), g2=p.S(2, 2, 4)))
    case(out, "c23-snull", r, lambda p: p.op("spectrum", h="null", g=p.S(2, 2, 1))); case(out, "c23-snull2", r, lambda p: p.op("spectrum", h=p.S(2, 2, 1), g="null"))
    case(out, "c23-sdim", r, lambda p: p.op("spectrum", h=p.S(2, 3, 1), g=p.S(3, 2, 1)))
    return out

# ---------------------------------------------------------------- C26 clustering
def blobs(r, R, C):
    d = [0] * (R * C)
    m = r.random()
    if m < .1: return d
    if m < .2: return [r.randint(1, 255)] * (R * C)
    if m < .5: return [r.choice([0, 0, 0, r.randint(1, 255)]) for _ in d]
    for _ in range(r.randint(1, 3)):
        y, x, q = r.randint(0, R - 1), r.randint(0, C - 1), r.randint(0, 2)
        for i in range(max(0, y - q), min(R, y + q + 1)):
            for j in range(max(0, x - q), min(C, x + q + 1)): d[i * C + j] = r.randint(1, 255)
    return d
def c26(r, n):
    out = []
    for k in range(n):
        p = P("c26", k, r); R, C = idims(r, 12) if r.random() < .75 else r.choice([(r.randint(1, 3), r.randint(14, 40)), (r.randint(14, 40), r.randint(1, 3))]); ch = 3 if k % 4 == 3 else 1
        if ch == 1: d = blobs(r, R, C)
        else: d = [v for x in blobs(r, R, C) for v in ([0, 0, 0] if x == 0 else [r.randint(0, 255) for _ in range(3)] if r.random() < .7 else [r.choice([0, 0, 1, 2, 3, 5]) for _ in range(3)])]
        h = p.S(R, C, 1, ch, d)
        for _ in range(r.randint(1, 2)):
            kind = r.choice([1, 2, 2, 3, 4, 6]); th = r.choice([0, 0, 0, 1, 2]) if kind <= 2 else r.choice([0, 0, 1]) if kind == 3 else 0
            p.op("kmeans", h=h, kind=kind, n=kind, th=th, seed=r.randint(0, 2**31 - 1))
        p.end(); out.append(p)
    for k, (kind, n2) in enumerate([(0, 0), (-1, 0), (2, 1), (1, 2), (3, 0)]):
        case(out, "c26-bad%d" % k, r, lambda p: p.op("kmeans", h=p.S(3, 3, 1, 1, [1] * 9), kind=kind, n=n2, th=0, seed=1))
    case(out, "c26-null", r, lambda p: p.op("kmeans", h="null", kind=1, n=1, th=0, seed=1))
    return out

# ---------------------------------------------------------------- C27 target detection
def eig(A):
    """eigenvalues of a symmetric matrix (Jacobi)"""
    n = len(A); A = [list(x) for x in A]
    for _ in range(60):
        for i in range(n):
            for j in range(i + 1, n):
                if abs(A[i][j]) < 1e-300: continue
                th = .5 * math.atan2(2 * A[i][j], A[j][j] - A[i][i]); c, s = math.cos(th), math.sin(th)
                for k in range(n): A[k][i], A[k][j] = c * A[k][i] - s * A[k][j], s * A[k][i] + c * A[k][j]
                for k in range(n): A[i][k], A[j][k] = c * A[i][k] - s * A[j][k], s * A[i][k] + c * A[j][k]
    return sorted((A[i][i] for i in range(n)), reverse=True)
def gram(X): b = len(X[0]); return [[sum(x[i] * x[j] for x in X) for j in range(b)] for i in range(b)]
def layout(X, s, l, b, il):
    d = [None] * (s * l * b)
    for i in range(l):
        for j in range(s):
            for k in range(b):
                q = {"bsq": (k * l + i) * s + j, "bil": (i * b + k) * s + j, "bip": (i * s + j) * b + k}[il]
                d[q] = ef(X[i * s + j][k])
    return d
def c27(r, n):
    out = []
    while len(out) < n:
        b = r.randint(1, 4); s, l = r.randint(1, 5), r.randint(1, 5)
        if s * l < b: continue
        X = [[f32(r.randint(-512, 512) / 64) for _ in range(b)] for _ in range(s * l)]
        e = eig(gram(X))
        if e[-1] <= 0 or e[0] / e[-1] > 60: continue
        p = P("c27", len(out), r); il = r.choice(ILS); h = p.H(s, l, b, 4, il, layout(X, s, l, b, il), rnd_wave(r, b) if r.random() < .5 else None)
        v = X[r.randrange(s * l)] if r.random() < .4 else [f32(r.randint(-256, 256) / 64) for _ in range(b)]
        if sum(a * a for a in v) < .25: v[0] = 1.0
        x = p.buf(4, [ef(a) for a in v]); p.op("cem", h=h, x=x, g="q")
        if r.random() < .4: p.op("cem", h=h, x=x, g="q2")
        if r.random() < .3: p.op("deleteH", h=h)
        p.end(); out.append(p)
    for t in TYPES:
        if t == 4: continue
        case(out, "c27-t%d" % t, r, lambda p: p.op("cem", h=p.H(2, 2, 1, t, "bsq", rnd_data(r, t, 4), None), x=p.buf(4, [[1, 0]]), g="q"))
    return out

# ---------------------------------------------------------------- C28 shapes
def shape(r, n=None):
    h, w = r.randint(1, 5), r.randint(1, 5)
    m = r.random()
    return [[(r.choice([0, 255]) if m < .4 else r.randint(0, 255) if m < .8 else 255) for _ in range(w)] for _ in range(h)]
def turn(q, k):
    for _ in range(k): q = [list(x) for x in zip(*q[::-1])]
    return q
def placed(r, q, extra=4):
    h, w = len(q), len(q[0]); R, C = h + r.randint(0, extra), w + r.randint(0, extra); y, x = r.randint(0, R - h), r.randint(0, C - w)
    d = [0] * (R * C)
    for i in range(h):
        for j in range(w): d[(y + i) * C + x + j] = q[i][j]
    return R, C, d
def c28(r, n):
    out = []
    for k in range(n):
        p = P("c28", k, r); q = shape(r) if k % 9 else [[0]] if k % 2 else [[r.randint(1, 255)]]
        def put(z): R, C, d = placed(r, z, 4 if k % 20 else 30); return p.S(R, C, 1, 1, d)
        a = put(q); b = put(turn(q, r.randint(0, 3))); c = put(shape(r))
        for _ in range(r.randint(1, 3)):
            x = r.choice([a, b, c])
            if r.random() < .5: g = p.buf(5, rnd_data(r, 5, 7), heap=1); p.op("hu", h=x, g=g)
            else: p.op("match", h=x, h2=r.choice([a, b, c]))
        p.end(); out.append(p)
    case(out, "c28-null", r, lambda p: p.op("hu", h="null", g=p.buf(5, rnd_data(r, 5, 7), heap=1)))
    case(out, "c28-null1", r, lambda p: p.op("hu", h=p.S(2, 2, 1), g="null"))
    case(out, "c28-null2", r, lambda p: p.op("match", h=p.S(2, 2, 1), h2="null"))
    case(out, "c28-null3", r, lambda p: p.op("match", h="null", h2=p.S(2, 2, 1)))
    return out

# ---------------------------------------------------------------- C29 drawing
def c29(r, n):
    out = []
    for k in range(n):
        p = P("c29", k, r); R, C = idims(r, 14); ch = r.choice([1, 3]) if k % 12 else r.choice([2, 4]); h, _, _ = img(p, r, R, C, ch)
        def pt(off): return [r.randint(-off, C - 1 + off), r.randint(-off, R - 1 + off)]
        for _ in range(r.randint(1, 2)):
            g = garb(p, r, R, C, ch); off = r.choice([0, 0, 0, 3, 12]); fn = "point" if r.random() < .4 else "line"
            if fn == "point": q = [v for _ in range(r.choice([0, 1, 1, 2, 5])) for v in pt(off)]
            else:
                a = pt(off); b = pt(off); m = r.random()
                if m < .1: b = list(a)
                elif m < .25: b[0] = a[0]
                elif m < .4: b[1] = a[1]
                elif m < .5: z = r.randint(-6, 6); b = [a[0] + z, a[1] + r.choice([z, -z])]
                q = a + b
            p.op("draw", fn=fn, h=h, g=g, pts=q, col=[r.randint(0, 255) for _ in range(3)], size=r.choice([0, 1, 1, 2, 3, 3, 4, 5, 9]))
            if r.random() < .3: h = g
        p.end(); out.append(p)
    for fn in ("point", "line"):
        a = dict(fn=fn, pts=[0, 0, 1, 1], col=[9, 8, 7], size=1)
        for t in (2, 3, 4, 5, 12): case(out, "c29-t%s%d" % (fn, t), r, lambda p: p.op("draw", h=p.S(2, 2, t), g=p.S(2, 2, t), **a))
        for k, (x, y) in enumerate([((2, 3, 1), (3, 2, 1)), ((2, 3, 1), (2, 3, 3)), ((2, 3, 3), (2, 4, 3)), ((2, 3, 3), (1, 3, 3))]): case(out, "c29-dim%s%d" % (fn, k), r, lambda p: p.op("draw", h=p.S(x[0], x[1], 1, x[2]), g=p.S(y[0], y[1], 1, y[2]), **a))
        case(out, "c29-null" + fn, r, lambda p: p.op("draw", h="null", g=p.S(2, 2, 1), **a)); case(out, "c29-null2" + fn, r, lambda p: p.op("draw", h=p.S(2, 2, 1), g="null", **a))
    return out

# ---------------------------------------------------------------- C30 normalisation
def c30(r, n):
    out = []
    for k in range(n):
        p = P("c30", k, r); R, C = idims(r); m = k % 8
        if m < 5:
            t = 1 if m < 3 else 4; ch = r.choice([1, 1, 2, 3]); N = R * C * ch; z = r.random()
            if t == 1: d = [0] * N if z < .08 else [r.randint(0, 255)] * N if z < .2 else u8(r, N)
            else: d = [[0, 0]] * N if z < .08 else [ef(r.randint(-999, 999) / 8)] * N if z < .2 else [ef(r.randint(-4000, 4000) / 16) for _ in range(N)] if z < .7 else [ef(r.randint(-4000, -1) / 16) for _ in range(N)]
            h = p.S(R, C, t, ch, d); g = garb(p, r, R, C, ch, t) if r.random() < .85 else h
            c = r.random()
            al, be = r.choice([(255, 0), (0, 255), (1, 0), (100, 20), (20, 200), (-50, 300), (40, 40), (r.randint(-2000, 2000) / 4, r.randint(-2000, 2000) / 4), (N, 0), (255 * R, 1), (0, 0), (.5, 7.25)])
            p.op("normz", fn=r.choice(["gen", "uchar" if t == 1 else "float"]), h=h, g=g, alpha=ef(al), beta=ef(be), nt=r.choice([1, 2, 4, 32, 32]) if c < .93 else r.choice([0, 3, 5, 8, 16, 33]))
        elif m < 7:
            h, _, _ = img(p, r, R, C); g = garb(p, r, R, C) if r.random() < .85 else h; p.op("equalise", h=h, g=g)
            if r.random() < .3: g2 = garb(p, r, R, C); p.op("equalise", h=g, g=g2)
        else:
            s, l, b = r.randint(1, 5), r.randint(1, 5), r.randint(1, 4); d = []
            for _ in range(b):
                z = r.random(); q = [ef(r.randint(-400, 400) / 8) for _ in range(s * l)] if z < .5 else [ef(r.randint(-4000, -1) / 8) for _ in range(s * l)] if z < .65 else [ef(r.choice([0, 7.5, -3]))] * (s * l) if z < .8 else [ef(f32(r.uniform(0, 1e4))) for _ in range(s * l)]
                if r.random() < .4: q[r.randrange(s * l)] = [0, 0]
                if s * l > 2 and r.random() < .3:      # zero lands on one of the lowest levels
                    a = r.choice([1, 2, 5]); q = [ef(f32(r.uniform(0, a * 80))) for _ in q]; x, y, z0 = r.sample(range(s * l), 3); q[x] = ef(-a); q[y] = ef(f32(a * (255 / r.choice([.5, 1.5, 2.5, .9, 1.1]) - 1))); q[z0] = [0, 0]
                d += q
            h = p.H(s, l, b, 4, "bsq", d, None); g = p.H(s, l, b, 1, r.choice(ILS), rnd_data(r, 1, s * l * b), rnd_wave(r, b)); p.op("tension", h=h, g=g)
        p.end(); out.append(p)
    a = dict(alpha=[255, 0], beta=[0, 0], nt=32)
    for t in TYPES:
        if t not in (1, 4): case(out, "c30-gen%d" % t, r, lambda p: p.op("normz", fn="gen", h=p.S(2, 3, t, 1, rnd_data(r, t, 6)), g=garb(p, r, 2, 3, 1, t), **a))
        for fn, ft in (("uchar", 1), ("float", 4), ("gen", 1), ("gen", 4)):
            if t != ft: case(out, "c30-dt%s%d%d" % (fn, ft, t), r, lambda p: p.op("normz", fn=fn, h=p.S(2, 3, ft), g=p.S(2, 3, t), **a))
    for fn, t in (("uchar", 1), ("float", 4), ("gen", 1), ("gen", 4), ("gen", 3)):
        for k, (x, y) in enumerate([((2, 3, 1), (3, 2, 1)), ((2, 3, 1), (2, 4, 1)), ((3, 3, 1), (2, 3, 1)), ((2, 3, 1), (2, 3, 3)), ((2, 3, 3), (2, 3, 1))]):
            case(out, "c30-dim%s%d%d" % (fn, t, k), r, lambda p: p.op("normz", fn=fn, h=p.S(x[0], x[1], t, x[2]), g=p.S(y[0], y[1], t, y[2]), **a))
        case(out, "c30-null%s%d" % (fn, t), r, lambda p: p.op("normz", fn=fn, h="null", g=p.S(2, 2, t), **a)); case(out, "c30-null2%s%d" % (fn, t), r, lambda p: p.op("normz", fn=fn, h=p.S(2, 2, t), g="null", **a))
    for k, (x, y) in enumerate([((2, 3, 1, 1), (3, 2, 1, 1)), ((2, 3, 1, 1), (2, 4, 1, 1)), ((2, 3, 1, 3), (2, 3, 1, 1)), ((2, 3, 1, 1), (2, 3, 1, 3)), ((2, 3, 12, 1), (2, 3, 1, 1)), ((2, 3, 1, 1), (2, 3, 4, 1)), ((2, 3, 4, 1), (2, 3, 4, 1))]):
        case(out, "c30-eq%d" % k, r, lambda p: p.op("equalise", h=p.S(*x), g=p.S(*y)))
    case(out, "c30-eqn", r, lambda p: p.op("equalise", h="null", g=p.S(2, 2, 1))); case(out, "c30-eqn2", r, lambda p: p.op("equalise", h=p.S(2, 2, 1), g="null"))
    for k, (x, y) in enumerate([((2, 3, 2, 4, "bil"), (2, 3, 2, 1, "bsq")), ((2, 3, 2, 4, "bip"), (2, 3, 2, 1, "bip")), ((2, 3, 2, 1, "bsq"), (2, 3, 2, 1, "bsq")), ((2, 3, 2, 12, "bsq"), (2, 3, 2, 1, "bsq")), ((2, 3, 2, 4, "bsq"), (2, 3, 2, 4, "bsq")), ((2, 3, 2, 4, "bsq"), (3, 2, 2, 1, "bsq")), ((2, 3, 2, 4, "bsq"), (2, 3, 3, 1, "bsq")), ((2, 3, 2, 4, "bsq"), (2, 4, 2, 1, "bsq"))]):
        case(out, "c30-ten%d" % k, r, lambda p: p.op("tension", h=p.H(*x, None, None), g=p.H(*y, None, None)))
    return out

# ---------------------------------------------------------------- C35 rotation
def c35(r, n):
    out = []
    for k in range(n):
        p = P("c35", k, r); t = TYPES[k % 9]; il = r.choice(ILS); c = r.random()
        s, l, b = (r.randint(1, 7), r.randint(1, 7), r.randint(1, 3)) if c < .8 else r.choice([(1, r.randint(1, 20), 1), (r.randint(1, 20), 1, 2), (2, 13, 1), (8, 8, 1)])
        h = p.H(s, l, b, t, il, rnd_data(r, t, s * l * b), rnd_wave(r, b) if r.random() < .7 else None)
        m = r.random()
        a = [r.choice([0, 90, 180, 270, 360, -90, -180, 450]), 0] if m < .35 else [r.choice([45, 30, 60, 135, 225, -45, 10, 1, 89, 91, 179, -30, 330]), 0] if m < .6 else [r.randint(-46080, 92160), -7] if m < .8 else [r.randint(-400, 400), r.randint(-3, 0)]
        p.op("rotate", h=h, g="q", angle=a)
        if r.random() < .2: p.op("rotate", h="q", g="q2", angle=r.choice([[90, 0], [-90, 0], [180, 0]]))
        if r.random() < .3: p.op("deleteH", h=h)
        p.end(); out.append(p)
    return out

# ---------------------------------------------------------------- C36 principal components
def c36(r, n):
    out = []
    while len(out) < n:
        b = r.choice([1, 2, 2, 3, 3, 4]); s, l = r.randint(1, 4), r.randint(1, 4); N = s * l
        if N < b + 2: continue
        sc = [4.0 ** -k * r.choice([1, 1.5]) for k in range(b)]; X = [[r.uniform(-9, 9) * q for q in sc] for _ in range(N)]
        for i in range(b):
            for j in range(i + 1, b):
                th = r.uniform(0, 6.28); c, z = math.cos(th), math.sin(th)
                for x in X: x[i], x[j] = c * x[i] - z * x[j], z * x[i] + c * x[j]
        off = [r.uniform(-20, 20) for _ in range(b)]
        X = [[f32(round((x[k] + off[k]) * 64) / 64) for k in range(b)] for x in X]
        mu = [sum(x[k] for x in X) / N for k in range(b)]; e = eig(gram([[x[k] - mu[k] for k in range(b)] for x in X]))
        if e[-1] <= 0 or any(e[k] < 2.5 * e[k + 1] for k in range(b - 1)) or e[0] > 2000 * e[-1]: continue
        p = P("c36", len(out), r); h = p.H(s, l, b, 4, "bip", layout(X, s, l, b, "bip"), None); g = p.H(s, l, b, 4, "bip", rnd_data(r, 4, s * l * b), rnd_wave(r, b) if r.random() < .5 else None)
        p.op("pca", h=h, g=g, it=r.choice([50, 80])); p.end(); out.append(p)
    for t in TYPES:
        if t != 4: case(out, "c36-t%d" % t, r, lambda p: p.op("pca", h=p.H(2, 2, 2, t, "bip", rnd_data(r, t, 8), None), g=p.H(2, 2, 2, t, "bip"), it=10))
    for il in ("bsq", "bil"): case(out, "c36-" + il, r, lambda p: p.op("pca", h=p.H(2, 2, 2, 4, il, smallf(r, 8), None), g=p.H(2, 2, 2, 4, il), it=10))
    return out

# ---------------------------------------------------------------- C37 edge energy
def c37(r, n):
    out = []
    for k in range(n):
        p = P("c37", k, r); R, C = idims(r, 12); h, _, _ = img(p, r, R, C); p.op("edge", h=h)
        if r.random() < .3: p.op("edge", h=h)
        p.end(); out.append(p)
    for t in TYPES:
        if t != 1: case(out, "c37-t%d" % t, r, lambda p: p.op("edge", h=p.S(2, 3, t)))
    case(out, "c37-ch", r, lambda p: p.op("edge", h=p.S(2, 3, 1, 3))); case(out, "c37-null", r, lambda p: p.op("edge", h="null"))
    return out
