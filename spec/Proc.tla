-------------------------------- MODULE Proc --------------------------------
(* The process module: element type conversions, thresholds, borders, geometry, linear and rank filters, morphology,
   statistics, colours, spectra, radiometry, pyramids, matrices and the vector container.
   Operations whose result is a rounded real are relational: the witness w is the observed outcome
   [ok, ret, nws], and the effect is the observed one provided it satisfies the defining relation. *)
EXTENDS Core, Num

(*************************** relational effects ***************************)
Mismatch == [out |-> "mismatch", ret |-> NoRet, upd |-> <<>>, del |-> {}]
\* the scalar result v satisfies P
RelRet(w, P(_)) == IF ~w.ok THEN Skip ELSE IF "v" \in DOMAIN w.ret /\ P(w.ret.v) THEN Ok([v |-> w.ret.v], <<>>, {}) ELSE Mismatch
\* the object h becomes obj, with data d that satisfy P
HasData(w, h, obj) == h \in DOMAIN w.nws /\ w.nws[h].k = obj.k /\ "d" \in DOMAIN w.nws[h] /\ w.nws[h].t = obj.t /\ Len(w.nws[h].d) = Len(obj.d)
RelData(w, h, obj, P(_)) ==
  IF ~w.ok THEN Skip
  ELSE IF HasData(w, h, obj) /\ FinAll(obj.t, w.nws[h].d) /\ P(w.nws[h].d) THEN Ok(NoRet, << <<h, [obj EXCEPT !.d = w.nws[h].d]>> >>, {}) ELSE Mismatch
\* every element i of the result equals F(i) as a number (for float data: the sign of zero is free)
RelVals(w, h, obj, F) == RelData(w, h, obj, LAMBDA d : FSeqEq(d, F))

SameGeom(a, b) == a.r = b.r /\ a.c = b.c /\ a.ch = b.ch
Px(m, i, j, c) == m.d[(i * m.c + j) * m.ch + c + 1]
\* build image data from a function of (row, col, channel)
\* (TLCEval only makes TLC compute the function once)
Img(r, c, ch, F(_, _, _)) == TLCEval([p \in 1..(r * c * ch) |-> LET q == (p - 1) \div ch IN F(q \div c, q % c, (p - 1) % ch)])

(*************************** type conversion ***************************)
ConvSrc(fn) == CASE fn \in {"uchar2short", "uchar2int", "uchar2float", "uchar2ushort"} -> 1 [] fn = "ushort2float" -> 12 [] OTHER -> 4
ConvDst(fn) == CASE fn \in {"uchar2short", "float2short"} -> 2 [] fn \in {"uchar2int", "float2int"} -> 3 [] fn \in {"uchar2float", "ushort2float"} -> 4
                 [] fn \in {"uchar2ushort", "float2ushort"} -> 12 [] fn = "float2uint" -> 13 [] OTHER -> 1
MinInt == -2147483647 - 1
\* a float above 2^31 as two 16-bit limbs, else its rounding
FToU32(v) == IF v[2] = 999 THEN IF v[1] > 0 THEN <<65535, 65535>> ELSE <<0, 0>>
             ELSE IF v[1] <= 0 THEN <<0, 0>>
             ELSE IF ~DLe(DF(v), DSub(DM(1, 32), D1)) THEN <<65535, 65535>>
             ELSE IF DLe(DM(1, 31), DF(v)) THEN LET k == v[2] - 16 IN \* v = m * 2^e, exact here
                  IF v[2] >= 16 THEN <<v[1] * Pow2(v[2] - 16), 0>>
                  ELSE <<v[1] \div Pow2(16 - v[2]), (v[1] % Pow2(16 - v[2])) * Pow2(v[2])>>
             ELSE LET n == FToInt(v, 0, 2147483647) IN <<n \div 65536, n % 65536>>
ConvElem(fn, x) ==
  CASE fn \in {"uchar2short", "uchar2int", "uchar2ushort"} -> x
    [] fn \in {"uchar2float", "ushort2float"} -> FEnc(x, 0)
    [] fn = "float2uchar" -> FToInt(x, 0, 255)
    [] fn = "float2char" -> FToInt(x, -128, 127) % 256 \* a signed byte, stored in an 8-bit cube
    [] fn = "float2short" -> FToInt(x, -32768, 32767)
    [] fn = "float2ushort" -> FToInt(x, 0, 65535)
    [] fn = "float2int" -> FToInt(x, MinInt, 2147483647)
    [] fn = "float2uint" -> FToU32(x)
ConvType(ws, o) ==
  LET m == ws[o.h] IN
  IF m.t # ConvSrc(o.fn) THEN Refuse
  ELSE New(o.g, [m EXCEPT !.t = ConvDst(o.fn), !.d = [i \in 1..Len(m.d) |-> ConvElem(o.fn, m.d[i])]])
F2US(ws, o) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.t # 4 THEN Refuse ELSE New(o.g, SM(m.r, m.c, 1, m.ch, [i \in 1..Len(m.d) |-> FToInt(m.d[i], 0, 255)]))
\* text of the form sign digits . digits e exponent: sg * n * 10^x, n the digits without the point
Atof(ws, o, w) ==
  RelRet(w, LAMBDA v :
    /\ v[2] # 999
    /\ LET n == DI(o.n) p == DPow(DI(10), Abs(o.x))
           want == IF o.x >= 0 THEN DMul(n, p) ELSE n
           got == IF o.x >= 0 THEN DF(v) ELSE DMul(DF(v), p)
       IN  DClose(got, IF o.sg < 0 THEN DNeg(want) ELSE want, want, 23))

(*************************** thresholds ***************************)
\* the named routine that fn, or the numbered mode of the general entry point, stands for
ThreshMode(o) == IF o.fn # "gen" THEN o.fn
                 ELSE CASE o.type = 0 -> "binary" [] o.type = 1 -> "binary_inv" [] o.type = 2 -> "trunc" [] o.type = 3 -> "tozero"
                        [] o.type = 4 -> "tozero_inv" [] o.type = 8 -> "otsu" [] OTHER -> "none"
ThreshPx(mode, x, th, mx) ==
  CASE mode = "binary" -> IF x > th THEN mx ELSE 0
    [] mode = "binary_inv" -> IF x > th THEN 0 ELSE mx
    [] mode = "trunc" -> IF x > th THEN th ELSE x
    [] mode = "tozero" -> IF x > th THEN x ELSE 0
    [] mode = "tozero_inv" -> IF x > th THEN 0 ELSE x
\* grey level (0..255) of every pixel as Otsu's histogram counts it
GreyLevels(m) == IF m.ch = 1 THEN m.d
                 ELSE TLCEval([p \in 1..(m.r * m.c) |-> (m.d[3 * p - 2] * 114 + m.d[3 * p - 1] * 587 + m.d[3 * p] * 299) \div 1000])
\* how many pixels have each grey level
Levels(g) == TLCEval([v \in 1..256 |-> Len(SelectSeq(g, LAMBDA x : x = v - 1))])
\* between-class variance of splitting the histogram h at t, times n^2: num/den with den = 1 for an empty class
Split(h, t) ==
  LET n0 == SumF(LAMBDA v : h[v], 1, t + 1) n1 == SumF(LAMBDA v : h[v], t + 2, 256)
      s0 == SumF(LAMBDA v : h[v] * (v - 1), 1, t + 1) s1 == SumF(LAMBDA v : h[v] * (v - 1), t + 2, 256) IN
  IF n0 = 0 \/ n1 = 0 THEN [num |-> DZero, den |-> D1]
  ELSE LET q == DSub(DMul(DI(n1), DI(s0)), DMul(DI(n0), DI(s1))) IN [num |-> DMul(q, q), den |-> DMul(DI(n0), DI(n1))]
SplitLe(a, b) == DLe(DMul(a.num, b.den), DMul(b.num, a.den))
Optimal(g, t) == LET h == Levels(g) best == Split(h, t) IN \A x \in 0..255 : h[x + 1] = 0 \/ SplitLe(Split(h, x), best)
Thresh(ws, o, w) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] mode == ThreshMode(o) IN
       IF mode = "none" \/ ~SameGeom(a, b) \/ a.t # 1 \/ a.ch # 1 THEN Refuse
       ELSE IF mode = "otsu"
            THEN RelData(w, o.g, b, LAMBDA d :
                   LET z == {a.d[i] : i \in {i \in 1..Len(a.d) : d[i] = 0}} t == IF z = {} THEN -1 ELSE CHOOSE x \in z : \A y \in z : y <= x IN
                     /\ d = [i \in 1..Len(a.d) |-> IF a.d[i] <= t THEN 0 ELSE 255]
                     /\ (IF t = -1 THEN \A i \in 1..Len(a.d) : a.d[i] = a.d[1] /\ a.d[1] > 0 ELSE Optimal(a.d, t)))
            ELSE Put(o.g, [b EXCEPT !.d = [i \in 1..Len(a.d) |-> ThreshPx(mode, a.d[i], o.th, o.mx)]])
Otsu(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.t # 1 \/ m.ch \notin {1, 3} THEN Refuse
       ELSE RelRet(w, LAMBDA v : v \in 0..255 /\ Optimal(GreyLevels(m), v))

(*************************** borders ***************************)
BorderModes == {0, 1, 2, 3, 4} \* constant, replicate, reflect, wrap, reflect 101
Interp(p, n, bt) ==
  IF p >= 0 /\ p < n THEN p
  ELSE CASE bt = 0 -> Min2(1, n - 1)
         [] bt = 1 -> Clamp(p, 0, n - 1)
         [] bt = 2 -> LET q == p % (2 * n) IN IF q < n THEN q ELSE 2 * n - 1 - q
         [] bt = 3 -> p % n
         [] bt = 4 -> IF n = 1 THEN 0 ELSE LET q == p % (2 * n - 2) IN IF q < n THEN q ELSE 2 * n - 2 - q
BInt(ws, o) == IF o.len <= 0 \/ o.bt \notin BorderModes THEN Refuse ELSE Ok([v |-> Interp(o.p, o.len, o.bt)], <<>>, {})
\* small integer v as an element of type t
ElemOf(t, v) == CASE t \in {1, 2, 3, 12} -> v [] t = 4 -> FEnc(v, 0) [] t = 5 -> LET f == FEnc(v, 0) IN <<0, f[1], f[2]>>
                  [] t = 13 -> <<0, v>> [] OTHER -> <<0, 0, 0, v>>
Border(ws, o) ==
  IF o.h = Null \/ o.top < 0 \/ o.bottom < 0 \/ o.left < 0 \/ o.right < 0 \/ o.bt \notin BorderModes THEN Refuse
  ELSE LET m == ws[o.h] R == m.r + o.top + o.bottom C == m.c + o.left + o.right IN
       New(o.g, SM(R, C, m.t, m.ch, Img(R, C, m.ch, LAMBDA i, j, c :
           LET y == i - o.top x == j - o.left IN
           IF o.bt = 0 /\ (y < 0 \/ y >= m.r \/ x < 0 \/ x >= m.c) THEN ElemOf(m.t, o.val)
           ELSE Px(m, Interp(y, m.r, o.bt), Interp(x, m.c, o.bt), c))))

(*************************** geometry ***************************)
FlipH(m) == [m EXCEPT !.d = Img(m.r, m.c, m.ch, LAMBDA i, j, c : Px(m, i, m.c - 1 - j, c))]
FlipV(m) == [m EXCEPT !.d = Img(m.r, m.c, m.ch, LAMBDA i, j, c : Px(m, m.r - 1 - i, j, c))]
FlipOf(o) == IF o.fn # "code" THEN o.fn ELSE CASE o.code = 0 -> "v" [] o.code = -1 -> "hv" [] OTHER -> "h"
Flip(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] f == FlipOf(o) IN
       IF ~SameGeom(a, b) \/ a.t # b.t THEN Refuse
       ELSE Put(o.g, [b EXCEPT !.d = (CASE f = "h" -> FlipH(a) [] f = "v" -> FlipV(a) [] f = "hv" -> FlipV(FlipH(a))).d])
TransposeS(m) == SM(m.c, m.r, m.t, m.ch, Img(m.c, m.r, m.ch, LAMBDA i, j, c : Px(m, j, i, c)))
TransS(ws, o) ==
  LET a == ws[o.h] b == ws[o.g] IN
  IF b.r # a.c \/ b.c # a.r \/ b.t # a.t \/ b.ch # a.ch THEN Refuse ELSE Put(o.g, [b EXCEPT !.d = TransposeS(a).d])
TransH(ws, o) ==
  IF o.h = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF a.il # "bsq" \/ b.s # a.l \/ b.l # a.s \/ b.b # a.b \/ b.t # a.t THEN Refuse
       ELSE Put(o.g, [b EXCEPT !.d = [p \in 1..Len(a.d) |-> LET c == Coord("bsq", b.s, b.l, b.b, p - 1) IN a.d[Pos("bsq", a.s, a.l, a.b, c[2], c[1], c[3]) + 1]]])

(*************************** linear filters ***************************)
\* row and column index maps of an axis of n pixels extended by q on both sides
Axis(n, q, bt) == TLCEval([p \in (-q)..(n - 1 + q) |-> Interp(p, n, bt)])
\* integer correlation of channel c with an integer kernel k of kr x kc anchored at its centre
CorrAt(m, k, kr, kc, Y, X, i, j, c) ==
  SumF(LAMBDA q : IF k[q + 1] = 0 THEN 0 ELSE k[q + 1] * Px(m, Y[i + (q \div kc) - (kr \div 2)], X[j + (q % kc) - (kc \div 2)], c), 0, kr * kc - 1)
SameSize(a, b) == a.r = b.r /\ a.c = b.c
Filter2D(ws, o, w) ==
  IF o.h = Null \/ o.g = Null \/ o.k = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF b.t # 4 \/ ~SameSize(a, b) \/ a.ch # b.ch \/ (o.bt \notin BorderModes /\ (o.kr > 1 \/ o.kc > 1)) THEN Refuse
       ELSE LET K == DyInts(ws[o.k].d) Y == Axis(a.r, o.kr, o.bt) X == Axis(a.c, o.kc, o.bt) IN
            RelVals(w, o.g, b, Img(a.r, a.c, a.ch, LAMBDA i, j, c : FEnc(CorrAt(a, K.v, o.kr, o.kc, Y, X, i, j, c), K.e)))
\* one-dimensional Gaussian kernels: fixed ones for small odd sizes without a sigma, else sampled
SmallGauss(n) == CASE n = 1 -> <<1>> [] n = 3 -> <<1, 2, 1>> [] n = 5 -> <<1, 4, 6, 4, 1>> [] n = 7 -> <<2, 7, 14, 18, 14, 7, 2>>
SmallGaussExp(n) == CASE n = 1 -> 0 [] n = 3 -> -2 [] n = 5 -> -4 [] n = 7 -> -6
IsSmall(n, s) == n % 2 = 1 /\ n <= 7 /\ s[1] <= 0
\* sigma that a non-positive one stands for, in exact decimals: ((n-1)/2 - 1) * 0.3 + 0.8
Sigma(n, s) == IF s[1] > 0 THEN DF(s) ELSE DDiv(DI(3 * (n - 1) + 10), DI(20), 7)
\* unnormalised weights exp(-(2i-n+1)^2 / (8 sigma^2))
GaussW(n, s) ==
  IF IsSmall(n, s) THEN TLCEval([i \in 1..n |-> DI(SmallGauss(n)[i])])
  ELSE LET q == DShift(DMul(Sigma(n, s), Sigma(n, s)), 3) IN
       TLCEval([i \in 1..n |-> LET x == 2 * i - n - 1 IN DExp(DNeg(DDiv(DI(x * x), q, 7)))])
GKernel(ws, o, w) ==
  IF o.n <= 0 \/ o.kt \notin {4, 5} THEN Refuse
  ELSE LET g == GaussW(o.n, o.sigma) sum == DSum(g) obj == SM(1, o.n, o.kt, 1, Const(o.n, 0)) IN
       IF ~w.ok THEN Skip
       ELSE IF /\ HasData(w, o.g, obj) /\ FinAll(o.kt, w.nws[o.g].d)
               /\ \A i \in 1..o.n : DNear(DMul(DV(o.kt, w.nws[o.g].d[i]), sum), g[i], DAdd(DShift(g[i], -16), DShift(sum, -24)))
       THEN Ok([null |-> 0], << <<o.g, [obj EXCEPT !.d = w.nws[o.g].d]>> >>, {}) ELSE Mismatch
\* separable 8-bit blur with integer kernels over 2^e: exact, rounded once
SepBlur(m, kx, ky, e, bt) ==
  LET qx == Len(kx) qy == Len(ky) Y == Axis(m.r, qy, bt) X == Axis(m.c, qx, bt)
      H == Img(m.r, m.c, m.ch, LAMBDA i, j, c : SumF(LAMBDA q : kx[q + 1] * Px(m, i, X[j + q - (qx \div 2)], c), 0, qx - 1))
      HM1 == [m EXCEPT !.d = H]
  IN  Img(m.r, m.c, m.ch, LAMBDA i, j, c : Clamp(RoundHE(SumF(LAMBDA q : ky[q + 1] * Px(HM1, Y[i + q - (qy \div 2)], j, c), 0, qy - 1), e), 0, 255))
\* the same with real weights: the value before rounding
SepReal(m, gx, gy, bt) ==
  LET qx == Len(gx) qy == Len(gy) Y == Axis(m.r, qy, bt) X == Axis(m.c, qx, bt)
      tx == TLCEval([i \in 1..qx |-> DTrunc(gx[i], 4)])  ty == TLCEval([i \in 1..qy |-> DTrunc(gy[i], 4)])
      H == Img(m.r, m.c, m.ch, LAMBDA i, j, c : DDot(tx, [q \in 1..qx |-> DI(Px(m, i, X[j + q - 1 - (qx \div 2)], c))]))
      HM1 == [m EXCEPT !.d = H]
  IN  Img(m.r, m.c, m.ch, LAMBDA i, j, c : DDot(ty, [q \in 1..qy |-> Px(HM1, Y[i + q - 1 - (qy \div 2)], j, c)]))
OddPos(n) == n > 0 /\ n % 2 = 1
Gauss(ws, o, w) ==
  IF o.h = Null \/ ~OddPos(o.kw) \/ ~OddPos(o.kh) \/ o.bt \notin BorderModes THEN Refuse
  ELSE LET a == ws[o.h] s2 == IF o.s2[1] <= 0 THEN o.s1 ELSE o.s2 IN
       IF a.ch \notin {1, 3} \/ ~SameSize(a, ws[o.g]) \/ a.ch # ws[o.g].ch THEN Refuse
       ELSE IF IsSmall(o.kw, o.s1) /\ IsSmall(o.kh, s2)
       THEN Put(o.g, [ws[o.g] EXCEPT !.d = SepBlur(a, SmallGauss(o.kw), SmallGauss(o.kh), SmallGaussExp(o.kw) + SmallGaussExp(o.kh), o.bt)])
       ELSE LET gx == GaussW(o.kw, o.s1) gy == GaussW(o.kh, s2) sum == DMul(DSum(gx), DSum(gy)) R == SepReal(a, gx, gy, o.bt)
                half == DMul(sum, DM(1311, -11)) \* 0.64
            IN RelData(w, o.g, ws[o.g], LAMBDA d : \A i \in 1..Len(d) : DNear(DMul(DI(d[i]), sum), R[i], half))
GaussK(ws, o, w) ==
  IF o.h = Null \/ o.bt \notin BorderModes THEN Refuse
  ELSE LET a == ws[o.h] IN
       IF a.ch \notin {1, 3} \/ ~SameSize(a, ws[o.g]) \/ a.ch # ws[o.g].ch \/ ws[o.kx].t # 4 \/ ws[o.ky].t # 4 THEN Refuse
       ELSE LET kx == DyInts(ws[o.kx].d) ky == DyInts(ws[o.ky].d) IN
            Put(o.g, [ws[o.g] EXCEPT !.d = SepBlur(a, kx.v, ky.v, kx.e + ky.e, o.bt)])
LapK == <<0, 1, 0, 1, -4, 1, 0, 1, 0>>
Lap(ws, o) ==
  IF o.h = Null \/ o.g = Null \/ o.ks <= 0 \/ o.bt \notin BorderModes THEN Refuse
  ELSE IF ~SameSize(ws[o.h], ws[o.g]) THEN Refuse
  ELSE LET a == ws[o.h] Y == Axis(a.r, 1, o.bt) X == Axis(a.c, 1, o.bt) f == IF o.ks = 2 THEN 2 ELSE 1 IN
       Put(o.g, [ws[o.g] EXCEPT !.d = Img(a.r, a.c, 1, LAMBDA i, j, c : Clamp(f * CorrAt(a, LapK, 3, 3, Y, X, i, j, 0), 0, 255))])
SobelX == <<-1, 0, 1, -2, 0, 2, -1, 0, 1>>
SobelY == <<1, 2, 1, 0, 0, 0, -1, -2, -1>>
Sobel(ws, o) ==
  LET a == ws[o.h] b == ws[o.g] IN
  IF a.r # b.r \/ a.c # b.c \/ o.bt \notin BorderModes \/ a.ch # 1 THEN Refuse
  ELSE LET Y == Axis(a.r, 1, o.bt) X == Axis(a.c, 1, o.bt) IN
       Put(o.g, [b EXCEPT !.d = Img(a.r, a.c, 1, LAMBDA i, j, c :
         IF Max2(Abs(CorrAt(a, SobelX, 3, 3, Y, X, i, j, 0)), Abs(CorrAt(a, SobelY, 3, 3, Y, X, i, j, 0))) > o.th THEN 255 ELSE 0)])

(*************************** rank, box and integral ***************************)
\* pixels of the window of radius q around (i,j) that lie inside the image
Window(m, i, j, q) ==
  LET y0 == Max2(0, i - q) y1 == Min2(m.r - 1, i + q) x0 == Max2(0, j - q) x1 == Min2(m.c - 1, j + q) n == x1 - x0 + 1 IN
  [p \in 1..((y1 - y0 + 1) * n) |-> Px(m, y0 + ((p - 1) \div n), x0 + ((p - 1) % n), 0)]
\* v is the middle value of the odd-length sequence s
IsMedian(s, v) == LET h == Len(s) \div 2 lt == Len(SelectSeq(s, LAMBDA x : x < v)) le == Len(SelectSeq(s, LAMBDA x : x <= v)) IN lt <= h /\ le > h
MedianOf(s) == CHOOSE v \in {s[i] : i \in 1..Len(s)} : IsMedian(s, v)
Median(ws, o) ==
  IF o.h = Null \/ o.g = Null \/ ~OddPos(o.size) THEN Refuse
  ELSE IF ~SameSize(ws[o.h], ws[o.g]) THEN Refuse
  ELSE LET a == ws[o.h] q == o.size \div 2 IN
       Put(o.g, [ws[o.g] EXCEPT !.d = Img(a.r, a.c, 1, LAMBDA i, j, c :
         IF i - q >= 0 /\ i + q < a.r /\ j - q >= 0 /\ j + q < a.c THEN MedianOf(Window(a, i, j, q)) ELSE Px(a, i, j, 0))])
MeanBlur(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE IF ~SameSize(ws[o.h], ws[o.g]) THEN Refuse
  ELSE LET a == ws[o.h] q == o.size \div 2 IN
       Put(o.g, [ws[o.g] EXCEPT !.d = Img(a.r, a.c, 1, LAMBDA i, j, c : LET s == Window(a, i, j, q) IN SumSeq(s) \div Len(s))])
Running(q) == FoldLeft(LAMBDA acc, x : Append(acc, x + (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])), <<>>, q)
Integral(ws, o) ==
  IF o.h = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF a.t # 1 \/ a.ch # 1 \/ b.ch # 1 \/ b.t # 3 \/ ~SameSize(a, b) THEN Refuse
       ELSE LET R == TLCEval([i \in 1..a.r |-> Running(SubSeq(a.d, (i - 1) * a.c + 1, i * a.c))])     \* prefix sums of the rows
                K == TLCEval([j \in 1..a.c |-> Running([i \in 1..a.r |-> R[i][j]])]) IN
            Put(o.g, [b EXCEPT !.d = Img(a.r, a.c, 1, LAMBDA i, j, c : K[j + 1][i + 1])])

(*************************** morphology ***************************)
Fits(m, e, i, j) == i - (e.ht \div 2) >= 0 /\ i + (e.ht \div 2) < m.r /\ j - (e.wd \div 2) >= 0 /\ j + (e.wd \div 2) < m.c
\* pixels under the members of the element placed at (i,j)
Under(m, e, i, j) == {Px(m, i - (e.ht \div 2) + (q \div e.wd), j - (e.wd \div 2) + (q % e.wd), 0) : q \in {q \in 0..(e.wd * e.ht - 1) : e.d[q + 1] = 1}}
TooSmall(m, e) == m.c < e.wd \/ m.r < e.ht
\* where the element does not fit into the image the pixel keeps its value
ErodeD(m, e) == Img(m.r, m.c, 1, LAMBDA i, j, c : LET x == Px(m, i, j, 0) IN IF x # 0 /\ Fits(m, e, i, j) /\ 0 \in Under(m, e, i, j) THEN 0 ELSE x)
DilateD(m, e) == Img(m.r, m.c, 1, LAMBDA i, j, c : LET x == Px(m, i, j, 0) IN IF x = 0 /\ Fits(m, e, i, j) /\ (\E v \in Under(m, e, i, j) : v # 0) THEN 1 ELSE x)
Erode(ws, o) ==
  IF o.h = Null \/ o.d = Null THEN Refuse
  ELSE LET a == ws[o.h] e == ws[o.d] IN IF ~SameSize(a, ws[o.g]) THEN Refuse ELSE IF TooSmall(a, e) THEN Skip ELSE Put(o.g, [ws[o.g] EXCEPT !.d = ErodeD(a, e)])
Dilate(ws, o) ==
  IF o.h = Null \/ o.d = Null THEN Refuse
  ELSE LET a == ws[o.h] e == ws[o.d] IN IF ~SameSize(a, ws[o.g]) THEN Refuse ELSE IF TooSmall(a, e) THEN Skip ELSE Put(o.g, [ws[o.g] EXCEPT !.d = DilateD(a, e)])
RECURSIVE OpenIt(_, _, _), CloseIt(_, _, _)
OpenIt(m, e, n) == IF n <= 0 THEN m ELSE OpenIt([m EXCEPT !.d = DilateD([m EXCEPT !.d = ErodeD(m, e)], e)], e, n - 1)
CloseIt(m, e, n) == IF n <= 0 THEN m ELSE CloseIt([m EXCEPT !.d = ErodeD([m EXCEPT !.d = DilateD(m, e)], e)], e, n - 1)
OpenClose(ws, o) ==
  IF o.h = Null \/ o.d = Null THEN Refuse
  ELSE LET a == ws[o.h] e == ws[o.d] g == ws[o.g] IN
       IF ~SameSize(a, g) \/ a.ch # g.ch \/ a.t # g.t THEN Refuse
       ELSE Put(o.g, [ws[o.g] EXCEPT !.d = IF TooSmall(a, e) THEN a.d ELSE IF o.op = "open" THEN OpenIt(a, e, o.it).d ELSE CloseIt(a, e, o.it).d])

(*************************** statistics ***************************)
DSeq(t, d) == TLCEval([i \in 1..Len(d) |-> DV(t, d[i])])
SumAbs(q) == DSum([i \in 1..Len(q) |-> DAbs(q[i])])
\* v is the mean of q, relative to the mean magnitude, to 2^-k
IsMean(v, q, k) == DNear(DMul(v, DI(Len(q))), DSum(q), DShift(SumAbs(q), -k))
MeanS(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN IF m.ch # 1 THEN Refuse ELSE RelRet(w, LAMBDA v : v[2] # 999 /\ IsMean(DF(v), DSeq(m.t, m.d), 22))
VarS(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.ch # 1 THEN Refuse
       ELSE RelRet(w, LAMBDA v : v[2] # 999 /\
              LET q == DSeq(m.t, m.d) n == DI(Len(q)) s == DSum(q) s2 == DDot(q, q)
                  nv == DSub(DMul(n, s2), DMul(s, s)) \* n^2 times the variance
              IN  DNear(DMul(DF(v), DMul(n, n)), nv, DAdd(DShift(nv, -20), DShift(DMul(s, s), -44))))
AvgGrey(a, b, c) == (2 * (a + b + c) + 3) \div 6
\* grey image of the statistics: the rounded average of three channels
GreyOf(m) == IF m.ch = 1 THEN m.d ELSE TLCEval([p \in 1..(m.r * m.c) |-> AvgGrey(m.d[3 * p - 2], m.d[3 * p - 1], m.d[3 * p])])
Hist(g) == Levels(g)
HistS(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET m == ws[o.h] IN IF m.t # 1 \/ m.ch \notin {1, 3} THEN Refuse ELSE Put(o.g, [ws[o.g] EXCEPT !.d = Hist(GreyOf(m))])
\* n log n minus the sum of c log c over the levels' counts c: n times the entropy
Entropy(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.t # 1 \/ m.ch \notin {1, 3} THEN Refuse
       ELSE RelRet(w, LAMBDA v : v[2] # 999 /\
              LET g == GreyOf(m) n == Len(g) c == SelectSeq(Hist(g), LAMBDA x : x > 0)
                  lg == TLCEval([x \in {c[i] : i \in 1..Len(c)} |-> DMul(DI(x), DLog2(x))])
                  nh == DSub(DMul(DI(n), DLog2(n)), DSum([i \in 1..Len(c) |-> lg[c[i]]]))
              IN  DNear(DMul(DF(v), DI(n)), nh, DShift(DAdd(DI(n), nh), -18)))
Sq(x) == x * x
Contrast(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.t # 1 \/ m.ch \notin {1, 3} THEN Refuse
       ELSE RelRet(w, LAMBDA v : v[2] # 999 /\
              LET g == [m EXCEPT !.d = GreyOf(m), !.ch = 1]
                  hz(i) == DI(SumF(LAMBDA j : Sq(Px(g, i, j, 0) - Px(g, i, j + 1, 0)), 0, m.c - 2))
                  vt(i) == DI(IF i = m.r - 1 THEN 0 ELSE SumF(LAMBDA j : Sq(Px(g, i, j, 0) - Px(g, i + 1, j, 0)), 0, m.c - 1))
                  pairs == m.r * (m.c - 1) + m.c * (m.r - 1)
                  sum == DSum([i \in 1..m.r |-> DAdd(hz(i - 1), vt(i - 1))])
              IN  DClose(DMul(DF(v), DI(pairs)), sum, sum, 18))
\* bytes of a char buffer, signed
S8(x) == IF x >= 128 THEN x - 256 ELSE x
CVal(ty, x) == CASE ty = "char" -> DI(S8(x)) [] ty = "double" -> DD(x) [] ty = "float" -> DF(x) [] ty = "uint" -> DV(13, x) [] OTHER -> DI(x)
MeanV(ws, o, w) == RelRet(w, LAMBDA v : v[3] # 999 /\ IsMean(DD(v), TLCEval([i \in 1..o.n |-> CVal(o.fn, ws[o.x].d[i])]), IF o.fn = "double" THEN 45 ELSE 17))

(*************************** colours ***************************)
ToRgb(ws, o, f) ==
  LET m == ws[o.h] IN
  IF m.ch # 1 THEN Refuse ELSE New(o.g, SM(m.r, m.c, 1, 3, Img(m.r, m.c, 3, LAMBDA i, j, c : (Px(m, i, j, 0) * f) % 256)))
GreyPx(k, a, b, c) ==
  CASE k = 1 -> Max2(a, Max2(b, c)) [] k = 2 -> (299 * a + 587 * b + 114 * c) \div 1000 [] OTHER -> AvgGrey(a, b, c)
Rgb2Gray(ws, o) ==
  LET m == ws[o.h] IN
  IF m.ch # 3 THEN Refuse ELSE New(o.g, SM(m.r, m.c, 1, 1, Img(m.r, m.c, 1, LAMBDA i, j, c : GreyPx(o.m, Px(m, i, j, 0), Px(m, i, j, 1), Px(m, i, j, 2)))))
SwapRB(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF a.t # 1 \/ ~SameGeom(a, b) \/ a.ch # 3 THEN Refuse ELSE Put(o.g, [b EXCEPT !.d = Img(a.r, a.c, 3, LAMBDA i, j, c : Px(a, i, j, 2 - c))])

(*************************** spectra and radiometry ***************************)
FVec(d, at, n) == TLCEval([i \in 1..n |-> DF(d[at + i])])
\* the angle between x and y is at most a (a real in 0..): cos a <= x.y / |x||y|
AngleAtMost(x, y, a) ==
  IF ~DLe(a, DM(3294198, -20)) THEN TRUE
  ELSE LET c == IF a[1] <= 0 THEN D1 ELSE DCos(a) xy == DDot(x, y) n2 == DMul(DDot(x, x), DDot(y, y)) cc == DMul(DMul(c, c), n2) pp == DMul(xy, xy) IN
       IF a[1] < 0 THEN FALSE
       ELSE IF c[1] >= 0 THEN xy[1] >= 0 /\ DLe(cc, pp) ELSE xy[1] >= 0 \/ DLe(pp, cc)
Eps == DM(1, -19)
AngleIs(x, y, v) == v[1] >= 0 /\ AngleAtMost(x, y, DAdd(v, Eps)) /\ (DLe(v, Eps) \/ ~AngleAtMost(x, y, DSub(v, Eps)))
Sam(ws, o, w) ==
  IF o.x = Null \/ o.y = Null THEN Refuse
  ELSE RelRet(w, LAMBDA v : v[2] # 999 /\ AngleIs(FVec(ws[o.x].d, 0, o.n), FVec(ws[o.y].d, 0, o.n), DF(v)))
Eucl(ws, o, w) == RelRet(w, LAMBDA v : v[2] # 999 /\ v[1] >= 0 /\
                    LET q == [i \in 1..o.n |-> DSub(DF(ws[o.x].d[i]), DF(ws[o.y].d[i]))] s == DDot(q, q) IN DClose(DMul(DF(v), DF(v)), s, s, 18))
SamMatch(ws, o, w) ==
  IF o.h = Null \/ o.x = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.il # "bip" \/ m.t # 4 THEN Refuse
       ELSE LET obj == SM(m.l, m.s, 1, 1, Const(m.l * m.s, 0)) y == FVec(ws[o.x].d, 0, m.b) th == DF(o.th) IN
            IF ~w.ok THEN Skip
            ELSE IF /\ HasData(w, o.g, obj)
                    /\ \A p \in 1..(m.l * m.s) :
                         LET x == FVec(m.d, (p - 1) * m.b, m.b) v == w.nws[o.g].d[p] IN
                         \/ v = 1 /\ AngleAtMost(x, y, DAdd(th, Eps))
                         \/ v = 0 /\ ~AngleAtMost(x, y, DSub(th, Eps))
                 THEN Ok([null |-> 0], << <<o.g, [obj EXCEPT !.d = w.nws[o.g].d]>> >>, {}) ELSE Mismatch
\* vals: the numbers the file's text denotes, up to the first thing that is not a number
ReadSpec(ws, o) ==
  IF o.has = 0 \/ o.n <= 0 THEN Refuse
  ELSE New(o.g, [k |-> "B", t |-> 4, d |-> [i \in 1..o.n |-> IF i <= Len(o.vals) THEN o.vals[i] ELSE <<0, 0>>]])
MeanH(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] b == ws[o.g] IN
       IF m.il # "bip" \/ m.s # b.c \/ m.l # b.r \/ b.t # 4 \/ m.t # 4 THEN Refuse
       ELSE RelData(w, o.g, b, LAMBDA d : \A p \in 1..(m.l * m.s) : IsMean(DF(d[p]), FVec(m.d, (p - 1) * m.b, m.b), 20))
\* each pixel times the coefficient of its cell
Radio(ws, o, w, src, K(_, _, _)) ==
  IF o.h = Null \/ o.k = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.il # "bip" \/ m.t # src THEN Refuse
       ELSE LET obj == HM(m.s, m.l, m.b, 4, "bip", m.w, Const(Len(m.d), <<0, 0>>)) IN
            IF ~w.ok THEN Skip
            ELSE IF /\ HasData(w, o.g, obj) /\ FinAll(4, w.nws[o.g].d)
                    /\ \A p \in 1..Len(m.d) : LET c == Coord("bip", m.s, m.l, m.b, p - 1)
                                                  want == DMul(DV(m.t, m.d[p]), DF(ws[o.k].d[K(m, c[2], c[3]) + 1]))
                                              IN  DClose(DF(w.nws[o.g].d[p]), want, want, 22)
                 THEN Ok([null |-> 0], << <<o.g, [obj EXCEPT !.d = w.nws[o.g].d]>> >>, {}) ELSE Mismatch
RelRad(ws, o, w) == Radio(ws, o, w, 12, LAMBDA m, j, k : k * m.s + j)
AbsRad(ws, o, w) == Radio(ws, o, w, 4, LAMBDA m, j, k : k)

(*************************** pyramids ***************************)
PyrDown(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF a.r < 2 \/ a.c < 2 \/ b.r # (a.r + 1) \div 2 \/ b.c # (a.c + 1) \div 2 \/ b.t # a.t \/ b.ch # a.ch \/ a.t # 1 \/ a.ch \notin {1, 3} THEN Refuse
       ELSE LET s == [a EXCEPT !.d = SepBlur(a, SmallGauss(5), SmallGauss(5), -8, 1)] IN Put(o.g, [b EXCEPT !.d = Img(b.r, b.c, b.ch, LAMBDA i, j, c : Px(s, 2 * i, 2 * j, c))])
PyrUp(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF a.r < 2 \/ a.c < 2 \/ b.r # 2 * a.r \/ b.c # 2 * a.c \/ b.t # a.t \/ b.ch # a.ch \/ a.t # 1 \/ a.ch \notin {1, 3} THEN Refuse
       ELSE LET z == [b EXCEPT !.d = Img(b.r, b.c, b.ch, LAMBDA i, j, c : IF i % 2 = 1 \/ j % 2 = 1 THEN 0 ELSE Px(a, i \div 2, j \div 2, c))] IN
            Put(o.g, [b EXCEPT !.d = SepBlur(z, SmallGauss(5), SmallGauss(5), -6, 1)])

(*************************** pixel-wise arithmetic ***************************)
AddS(ws, o, w) ==
  IF o.h = Null \/ o.h2 = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.h2] g == ws[o.g] t == IF o.fn = "uchar" THEN 1 ELSE 4 IN
       IF ~SameGeom(a, b) \/ ~SameGeom(a, g) \/ a.t # t \/ b.t # t \/ g.t # t THEN Refuse
       ELSE IF t = 1 THEN Put(o.g, [g EXCEPT !.d = [i \in 1..Len(a.d) |-> a.d[i] + b.d[i]]])
       ELSE RelData(w, o.g, g, LAMBDA d : \A i \in 1..Len(d) : LET s == DAdd(DF(a.d[i]), DF(b.d[i])) IN DClose(DF(d[i]), s, s, 23))
LogS(ws, o, w) ==
  LET a == ws[o.h] g == ws[o.g] IN
  IF a.t # 4 \/ g.t # 4 \/ ~SameGeom(a, g) THEN Refuse
  ELSE RelData(w, o.g, g, LAMBDA d : \A i \in 1..Len(d) : DLe(DAbs(DF(d[i])), DI(200)) /\ DClose(DExp(DF(d[i])), DF(a.d[i]), DF(a.d[i]), 17))

(*************************** matrices ***************************)
BufT(ty) == CASE ty \in {"char", "uchar"} -> 1 [] ty = "short" -> 2 [] ty = "ushort" -> 12 [] ty = "int" -> 3 [] ty = "uint" -> 13 [] ty = "float" -> 4 [] ty = "double" -> 5
TolBits(ty) == IF ty = "double" THEN 45 ELSE 19
\* result buffer h: the first n elements satisfy P, the rest is untouched
RelBuf(w, ws, h, n, P(_)) ==
  IF ~w.ok THEN Skip
  ELSE IF HasData(w, h, ws[h]) /\ FinAll(ws[h].t, w.nws[h].d) /\ P(w.nws[h].d) /\ \A i \in (n + 1)..Len(ws[h].d) : w.nws[h].d[i] = ws[h].d[i]
  THEN Put(h, [ws[h] EXCEPT !.d = w.nws[h].d]) ELSE Mismatch
Num2(ty, d, n) == TLCEval([i \in 1..n |-> CVal(ty, d[i])])
\* terms of element (i,j) (0-based) of x (m x k) times y (k x n)
Terms(X, Y, k, n, i, j) == TLCEval([q \in 1..k |-> DMul(X[i * k + q], Y[(q - 1) * n + j + 1])])
MatMul(ws, o, w) ==
  LET X == Num2(o.ty, ws[o.x].d, o.m * o.k) Y == Num2(o.ty, ws[o.y].d, o.k * o.n) IN
  RelBuf(w, ws, o.z, o.m * o.n, LAMBDA d : \A p \in 1..(o.m * o.n) :
    LET t == Terms(X, Y, o.k, o.n, (p - 1) \div o.n, (p - 1) % o.n) z == CVal(o.ty, d[p]) IN
    IF o.ty \in {"float", "double"} THEN DNear(z, DSum(t), DShift(SumAbs(t), -TolBits(o.ty))) ELSE z = DSum(t))
MatCorr(ws, o, w) ==
  LET X == Num2(o.ty, ws[o.x].d, o.m * o.k) Y == Num2(o.ty, ws[o.y].d, o.k * o.n) K == DI(o.k) IN
  RelBuf(w, ws, o.z, o.m * o.n, LAMBDA d : \A p \in 1..(o.m * o.n) :
    LET t == Terms(X, Y, o.k, o.n, (p - 1) \div o.n, (p - 1) % o.n) s == DSum(t) z == DMul(CVal(o.ty, d[p]), K) IN
    IF o.ty = "float" THEN DNear(z, s, DShift(SumAbs(t), -TolBits(o.ty)))
    ELSE DCmp(DAbs(DSub(s, z)), K) < 0 /\ DLe(DAbs(z), DAbs(s))) \* truncated quotient
MatTrans(ws, o) ==
  LET x == ws[o.x].d z == ws[o.z] IN
  Put(o.z, [z EXCEPT !.d = [p \in 1..Len(z.d) |-> IF p > o.m * o.n THEN z.d[p] ELSE x[((p - 1) % o.m) * o.n + ((p - 1) \div o.m) + 1]]])
SwapRows(ws, o) ==
  LET x == ws[o.x] IN
  IF o.r1 < 0 \/ o.r1 >= o.m \/ o.r2 < 0 \/ o.r2 >= o.m \/ o.r1 = o.r2 THEN Refuse
  ELSE Put(o.x, [x EXCEPT !.d = [p \in 1..Len(x.d) |->
         LET i == (p - 1) \div o.n j == (p - 1) % o.n IN IF i = o.r1 THEN x.d[o.r2 * o.n + j + 1] ELSE IF i = o.r2 THEN x.d[o.r1 * o.n + j + 1] ELSE x.d[p]]])
Identity(ws, o, w) ==
  RelBuf(w, ws, o.x, o.m * o.m, LAMBDA d : \A p \in 1..(o.m * o.m) : FEq(d[p], IF (p - 1) \div o.m = (p - 1) % o.m THEN <<1, 0>> ELSE <<0, 0>>))
\* |product - identity| small
NearIdentity(A, B, m, k) ==
  \A i \in 0..(m - 1) : \A j \in 0..(m - 1) : DNear(DSum(Terms(A, B, m, m, i, j)), IF i = j THEN D1 ELSE DZero, DM(1, -k))
Invert(ws, o, w) ==
  LET X == Num2("float", ws[o.x].d, o.m * o.m) IN
  RelBuf(w, ws, o.z, o.m * o.m, LAMBDA d : LET Z == Num2("float", d, o.m * o.m) IN NearIdentity(Z, X, o.m, 12) /\ NearIdentity(X, Z, o.m, 12))
Norm(ws, o, w) == RelRet(w, LAMBDA v : v[2] # 999 /\ v[1] >= 0 /\ LET q == FVec(ws[o.x].d, 0, o.n) s == DDot(q, q) IN DClose(DMul(DF(v), DF(v)), s, s, 18))
FGe(a, b) == DLe(DF(b), DF(a))
SortDown(ws, o) ==
  LET x == ws[o.x] IN Put(o.x, [x EXCEPT !.d = SortSeq(SubSeq(x.d, 1, o.n), FGe) \o SubSeq(x.d, o.n + 1, Len(x.d))])
Orthonormal(Q, m, k) == \A i \in 1..m : \A j \in 1..m : DNear(DDot([q \in 1..m |-> Q[(q - 1) * m + i]], [q \in 1..m |-> Q[(q - 1) * m + j]]), IF i = j THEN D1 ELSE DZero, DM(1, -k))
QR(ws, o, w) ==
  LET m == o.m A == Num2("float", ws[o.x].d, m * m) q == o.q r == o.r IN
  IF ~w.ok THEN Skip
  ELSE IF /\ HasData(w, q, ws[q]) /\ HasData(w, r, ws[r]) /\ FinAll(4, w.nws[q].d) /\ FinAll(4, w.nws[r].d)
          /\ LET Q == Num2("float", w.nws[q].d, m * m) R == Num2("float", w.nws[r].d, m * m) mx == SumAbs(A) IN
             /\ Orthonormal(Q, m, 10)
             /\ \A i \in 0..(m - 1) : \A j \in 0..(m - 1) : DNear(DSum(Terms(Q, R, m, m, i, j)), A[i * m + j + 1], DShift(mx, -16)) /\ (i > j => R[i * m + j + 1] = DZero) /\ (i = j => R[i * m + j + 1][1] >= 0)
          /\ \A h \in {q, r} : \A i \in (m * m + 1)..Len(ws[h].d) : w.nws[h].d[i] = ws[h].d[i]
  THEN Ok(NoRet, << <<q, [ws[q] EXCEPT !.d = w.nws[q].d]>>, <<r, [ws[r] EXCEPT !.d = w.nws[r].d]>> >>, {}) ELSE Mismatch
\* column j of v is a unit vector with x v = e_j v
EigVec(ws, o, w) ==
  LET m == o.m A == Num2("float", ws[o.x].d, m * m) E == Num2("float", ws[o.ev].d, m) IN
  RelBuf(w, ws, o.v, m * m, LAMBDA d :
    LET V == Num2("float", d, m * m) mx == SumAbs(A) IN
    \A j \in 0..(m - 1) :
      LET c == [q \in 1..m |-> V[(q - 1) * m + j + 1]] IN
      /\ DNear(DDot(c, c), D1, DM(1, -14))
      /\ \A i \in 0..(m - 1) : DNear(DDot([q \in 1..m |-> A[i * m + q]], c), DMul(E[j + 1], c[i + 1]), DShift(mx, -12)))

(*************************** the vector container ***************************)
Vec(ws, o, w) ==
  LET v == ws[o.h] n == Len(v.d) f == o.fn set(d) == Put(o.h, [v EXCEPT !.d = d]) IN
  CASE f = "push" -> set(Append(v.d, o.x))
    [] f = "pop" -> set(IF n = 0 THEN v.d ELSE SubSeq(v.d, 1, n - 1))
    [] f = "erase" -> set(IF o.i >= n THEN v.d ELSE SubSeq(v.d, 1, o.i) \o SubSeq(v.d, o.i + 2, n))
    [] f = "free" -> set(<<>>)
    [] f = "init" -> set(Const(o.n, o.x))
    [] f \in {"size", "iter"} -> Ok([v |-> n], <<>>, {})
    [] f = "cap" -> RelRet(w, LAMBDA c : c >= n)
    [] f = "empty" -> Ok([v |-> IF n = 0 THEN 1 ELSE 0], <<>>, {})
    [] f = "get" -> Ok([v |-> <<v.d[o.i + 1]>>], <<>>, {})
    [] f = "set" -> set([v.d EXCEPT ![o.i + 1] = o.x])

ProcOps == {"convtype", "f2uS", "atof", "thresh", "otsu", "bint", "border", "flip", "transS", "transH", "filter2D", "gkernel", "gauss", "gaussk", "lap", "sobel",
            "median", "meanblur", "integral", "erode", "dilate", "open", "close", "meanS", "varS", "hist", "entropy", "contrast", "meanv", "gray2rgb", "bin2rgb",
            "rgb2gray", "bgr2rgb", "sam", "eucl", "sammatch", "readspec", "meanH", "relrad", "absrad", "pyrdown", "pyrup", "addS", "logS", "matmul", "mattrans",
            "matcorr", "swaprows", "identity", "invert", "norm", "sortdown", "qr", "eigvec", "vnew", "vec", "vdel"}
ProcEff(ws, o, w) ==
  CASE o.op = "convtype" -> ConvType(ws, o) [] o.op = "f2uS" -> F2US(ws, o) [] o.op = "atof" -> Atof(ws, o, w)
    [] o.op = "thresh" -> Thresh(ws, o, w) [] o.op = "otsu" -> Otsu(ws, o, w)
    [] o.op = "bint" -> BInt(ws, o) [] o.op = "border" -> Border(ws, o)
    [] o.op = "flip" -> Flip(ws, o) [] o.op = "transS" -> TransS(ws, o) [] o.op = "transH" -> TransH(ws, o)
    [] o.op = "filter2D" -> Filter2D(ws, o, w) [] o.op = "gkernel" -> GKernel(ws, o, w) [] o.op = "gauss" -> Gauss(ws, o, w) [] o.op = "gaussk" -> GaussK(ws, o, w)
    [] o.op = "lap" -> Lap(ws, o) [] o.op = "sobel" -> Sobel(ws, o)
    [] o.op = "median" -> Median(ws, o) [] o.op = "meanblur" -> MeanBlur(ws, o) [] o.op = "integral" -> Integral(ws, o)
    [] o.op = "erode" -> Erode(ws, o) [] o.op = "dilate" -> Dilate(ws, o) [] o.op \in {"open", "close"} -> OpenClose(ws, o)
    [] o.op = "meanS" -> MeanS(ws, o, w) [] o.op = "varS" -> VarS(ws, o, w) [] o.op = "hist" -> HistS(ws, o)
    [] o.op = "entropy" -> Entropy(ws, o, w) [] o.op = "contrast" -> Contrast(ws, o, w) [] o.op = "meanv" -> MeanV(ws, o, w)
    [] o.op = "gray2rgb" -> ToRgb(ws, o, 1) [] o.op = "bin2rgb" -> ToRgb(ws, o, 255) [] o.op = "rgb2gray" -> Rgb2Gray(ws, o) [] o.op = "bgr2rgb" -> SwapRB(ws, o)
    [] o.op = "sam" -> Sam(ws, o, w) [] o.op = "eucl" -> Eucl(ws, o, w) [] o.op = "sammatch" -> SamMatch(ws, o, w) [] o.op = "readspec" -> ReadSpec(ws, o)
    [] o.op = "meanH" -> MeanH(ws, o, w) [] o.op = "relrad" -> RelRad(ws, o, w) [] o.op = "absrad" -> AbsRad(ws, o, w)
    [] o.op = "pyrdown" -> PyrDown(ws, o) [] o.op = "pyrup" -> PyrUp(ws, o) [] o.op = "addS" -> AddS(ws, o, w) [] o.op = "logS" -> LogS(ws, o, w)
    [] o.op = "matmul" -> MatMul(ws, o, w) [] o.op = "mattrans" -> MatTrans(ws, o) [] o.op = "matcorr" -> MatCorr(ws, o, w) [] o.op = "swaprows" -> SwapRows(ws, o)
    [] o.op = "identity" -> Identity(ws, o, w) [] o.op = "invert" -> Invert(ws, o, w) [] o.op = "norm" -> Norm(ws, o, w) [] o.op = "sortdown" -> SortDown(ws, o)
    [] o.op = "qr" -> QR(ws, o, w) [] o.op = "eigvec" -> EigVec(ws, o, w)
    [] o.op = "vnew" -> Put(o.h, [k |-> "V", t |-> o.t, d |-> <<>>]) [] o.op = "vdel" -> Ok(NoRet, <<>>, {o.h}) [] o.op = "vec" -> Vec(ws, o, w)
=============================================================================
