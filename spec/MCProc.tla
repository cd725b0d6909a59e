-------------------------------- MODULE MCProc --------------------------------
(* Laws of the process module, checked exhaustively over all small inputs.  An input is a sequence over Vals that
   grows one value at a time (so that TLC explores the inputs in parallel); each law reads it as images, matrices,
   spectra or call histories and states what the operations of HyperCV must satisfy on it. *)
EXTENDS HyperCV
CONSTANTS Vals, Off, N      \* the values are Vals - Off (configurations cannot write negative numbers)
VARIABLE x
Init == x = <<>>
Next == Len(x) < N /\ \E v \in Vals : x' = Append(x, v - Off)
Spec == Init /\ [][Next]_x
Full == Len(x) = N
TypeOK == Len(x) <= N

Ws(m) == m
Im(r, c, ch, d) == SM(r, c, 1, ch, d)
F(i) == FEnc(i, 0)
Buf(t, d) == [k |-> "B", t |-> t, d |-> d]
\* the object g after the deterministic call o in ws
Res(ws, o, g) == LET e == Eff(ws, o, NoWit) IN ApplyUpd(ws, e.upd, e.del)[g]
\* does the specification accept obj as g's value / v as the result of o?
Takes(ws, o, g, obj) == Accepts(ws, o, "ok", [null |-> 0, z |-> 0], ApplyUpd(ws, << <<g, obj>> >>, {}))
Says(ws, o, v) == Accepts(ws, o, "ok", [v |-> v], ws)
Two(a, b) == [h \in {"a", "b"} |-> IF h = "a" THEN a ELSE b]
Blank(m) == [m EXCEPT !.d = Const(Len(m.d), 77)]

(************************ C11 ************************)
\* x[1], x[2] as the value (40 x1 + x2) / 8
L11 == Full => LET n == 40 * x[1] + x[2] v == FEnc(n, -3) IN
  \A lh \in {<<0, 255>>, <<-128, 127>>, <<-32768, 32767>>, <<0, 65535>>} :
    LET q == FToInt(v, lh[1], lh[2]) IN
    /\ q \in lh[1]..lh[2]
    /\ (n >= 8 * lh[1] /\ n <= 8 * lh[2] => Abs(8 * q - n) <= 4 /\ (Abs(8 * q - n) = 4 => q % 2 = 0))
    /\ (n > 8 * lh[2] => q = lh[2]) /\ (n < 8 * lh[1] => q = lh[1])
L11b == Full => LET u == Abs(x[1] * 17 + x[2]) % 256 IN
  /\ ConvElem("float2uchar", ConvElem("uchar2float", u)) = u
  /\ LET s == 257 * u IN ConvElem("float2ushort", ConvElem("ushort2float", s)) = s
  /\ FToU32(FEnc(u, 8)) = <<0, 256 * u>> /\ FToU32(FEnc(u, 20)) = <<16 * u, 0>> /\ FToU32(FEnc(-u - 1, 3)) = <<0, 0>>
  /\ (u >= 128 => FToU32(FEnc(u, 24)) = <<256 * u, 0>>) /\ FToU32(<<1, 32>>) = <<65535, 65535>>

(************************ C12 ************************)
ThOp(fn, th, mx) == [op |-> "thresh", fn |-> fn, h |-> "a", g |-> "b", th |-> th, mx |-> mx, type |-> 0]
L12 == Full => LET a == Im(1, N, 1, x) ws == Two(a, Blank(a)) D(fn, th) == Res(ws, ThOp(fn, th, 200), "b").d IN
  \A th \in {0, 1, 127, 128, 255} : \A i \in 1..N :
    /\ D("binary", th)[i] + D("binary_inv", th)[i] = 200 /\ D("tozero", th)[i] + D("tozero_inv", th)[i] = x[i]
    /\ D("trunc", th)[i] = Min2(x[i], th) /\ (D("binary", th)[i] = 200) = (x[i] > th)
    /\ \A ty \in 0..4 : Res(ws, [ThOp("gen", th, 200) EXCEPT !.type = ty], "b").d = D(<<"binary", "binary_inv", "trunc", "tozero", "tozero_inv">>[ty + 1], th)
\* Otsu: some threshold is optimal; accepted binarisations are monotone in the pixel, and an accepted one exists
L12o == Full => LET a == Im(1, N, 1, x) ws == Two(a, Blank(a)) o == ThOp("otsu", 0, 255)
                  best == {t \in 0..255 : t \in {x[i] : i \in 1..N} /\ Optimal(x, t)} IN
  /\ best # {}
  /\ \A t \in best : Says(ws, [op |-> "otsu", h |-> "a"], t) /\ Takes(ws, o, "b", [a EXCEPT !.d = [i \in 1..N |-> IF x[i] <= t THEN 0 ELSE 255]])
  /\ \A t \in {x[i] : i \in 1..N} \ best : ~Says(ws, [op |-> "otsu", h |-> "a"], t)
  /\ \A j \in 1..N : LET d == [i \in 1..N |-> IF i = j THEN 255 ELSE 0] IN
       Takes(ws, o, "b", [a EXCEPT !.d = d]) => \A i \in 1..N : i = j \/ x[i] < x[j]

(************************ C13 ************************)
L13 == Full => LET p == x[1] IN \A n \in 1..6 : \A bt \in BorderModes :
  LET I(q) == Interp(q, n, bt) IN
  /\ I(p) \in 0..(n - 1) /\ (p \in 0..(n - 1) => I(p) = p)
  /\ (bt = 1 => I(p) = Clamp(p, 0, n - 1)) /\ (bt = 3 => I(p + n) = I(p))
  /\ (bt = 2 => I(-1 - p) = I(p) /\ I(2 * n - 1 - p) = I(p) /\ I(p + 2 * n) = I(p))
  /\ (bt = 4 => I(-p) = I(p) /\ (n > 1 => I(2 * n - 2 - p) = I(p)))
L13b == Full => LET a == Im(2, 2, 1, <<1, 2, 3, 4>>) t == Abs(x[1]) % 5 IN \A bt \in BorderModes :
  LET b == Res(Two(a, a), [op |-> "border", h |-> "a", g |-> "q", top |-> t, bottom |-> 1, left |-> 2, right |-> t, bt |-> bt, val |-> 9], "q") IN
  /\ b.r = 3 + t /\ b.c = 4 + t /\ \A i, j \in 0..1 : Px(b, i + t, j + 2, 0) = Px(a, i, j, 0)
  /\ (bt = 0 => \A i \in 0..(b.r - 1), j \in 0..(b.c - 1) : Px(b, i, j, 0) = 9 \/ (i - t \in 0..1 /\ j - 2 \in 0..1))
  /\ (bt # 0 => \A i \in 0..(b.r - 1), j \in 0..(b.c - 1) : Px(b, i, j, 0) \in 1..4)

(************************ C14 ************************)
Fl(m, fn, code) == Res(Two(m, Blank(m)), [op |-> "flip", fn |-> fn, h |-> "a", g |-> "b", code |-> code], "b")
Tr(m) == Res(Two(m, Blank([m EXCEPT !.r = m.c, !.c = m.r])), [op |-> "transS", h |-> "a", g |-> "b"], "b")
L14 == Full => \A g \in {<<2, 3, 1>>, <<1, 3, 2>>, <<3, 1, 2>>, <<1, 6, 1>>} :
  LET m == Im(g[1], g[2], g[3], x) IN
  /\ Fl(Fl(m, "h", 0), "h", 0) = m /\ Fl(Fl(m, "v", 0), "v", 0) = m /\ Fl(m, "code", -1) = Fl(Fl(m, "h", 0), "v", 0) /\ Fl(m, "code", -1) = Fl(Fl(m, "v", 0), "h", 0)
  /\ Fl(m, "code", 0) = Fl(m, "v", 0) /\ Fl(m, "code", 1) = Fl(m, "h", 0) /\ Tr(Tr(m)) = m /\ Tr(Fl(m, "h", 0)) = Fl(Tr(m), "v", 0)
L14b == Full => LET m == HM(2, 3, 1, 1, "bsq", <<F(1)>>, x) t == HM(3, 2, 1, 1, "bsq", <<F(2)>>, Const(6, 0))
                    q == Res(Two(m, t), [op |-> "transH", h |-> "a", g |-> "b"], "b") IN
  /\ Res(Two(q, m), [op |-> "transH", h |-> "a", g |-> "b"], "b") = m
  /\ \A c \in DOMAIN Cube(m) : Cube(m)[c] = Cube(q)[<<c[2], c[1], c[3]>>]

(************************ C15, C32 ************************)
G3 == <<1, 2, 1>>
Outer == <<1, 2, 1, 2, 4, 2, 1, 2, 1>>
L15 == Full => LET m == Im(2, 3, 1, x) IN \A bt \in BorderModes \ {0} :
  LET Y == Axis(2, 1, bt) X == Axis(3, 1, bt) b == SepBlur(m, G3, G3, -4, bt) IN
  \* separable = two-dimensional with the outer product; values stay within the image's range; mirror symmetric
  /\ \A i \in 0..1, j \in 0..2 : b[i * 3 + j + 1] = RoundHE(CorrAt(m, Outer, 3, 3, Y, X, i, j, 0), -4) /\ b[i * 3 + j + 1] <= MaxSeq(x) /\ b[i * 3 + j + 1] >= MinSeq(x)
  /\ (bt # 3 => SepBlur(FlipH(m), G3, G3, -4, bt) = FlipH([m EXCEPT !.d = b]).d)
  /\ ((\A i \in 1..6 : x[i] = x[1]) => b = x)
L15b == Full => LET a == Im(2, 3, 1, x) ws == [h \in {"a", "b", "k"} |-> IF h = "a" THEN a ELSE IF h = "b" THEN SM(2, 3, 4, 1, Const(6, F(5))) ELSE Buf(4, <<F(0), F(0), F(1)>>)]
                    o == [op |-> "filter2D", h |-> "a", g |-> "b", k |-> "k", kr |-> 1, kc |-> 3, bt |-> 1] sh == [i \in 1..6 |-> F(x[IF i % 3 = 0 THEN i ELSE i + 1])] IN
  \* a one-pixel shift: anchored at the centre, correlation and not convolution
  /\ Takes(ws, o, "b", SM(2, 3, 4, 1, sh))
  /\ Takes(ws, o, "b", SM(2, 3, 4, 1, [sh EXCEPT ![1] = F(x[1])])) => x[1] = x[2]
L32 == Full => LET m == Im(3, 2, 1, x) Z(r, c) == Im(r, c, 1, Const(r * c, 9)) d == Res(Two(m, Z(2, 1)), [op |-> "pyrdown", h |-> "a", g |-> "b"], "b") IN
  /\ \A i \in 1..2 : d.d[i] \in MinSeq(x)..MaxSeq(x)
  /\ ((\A i \in 1..6 : x[i] = x[1]) => d.d = <<x[1], x[1]>>)
  \* away from the edges an enlarged constant image keeps its value
  /\ LET k == Im(3, 3, 1, Const(9, x[1])) v == Res(Two(k, Im(6, 6, 1, Const(36, 9))), [op |-> "pyrup", h |-> "a", g |-> "b"], "b") IN v.d[2 * 6 + 3] = x[1] /\ v.d[2 * 6 + 4] = x[1]
  /\ \A r \in 1..3, c \in 1..2 : (r # 2 \/ c # 1) => Eff(Two(m, Z(r, c)), [op |-> "pyrdown", h |-> "a", g |-> "b"], NoWit).out = "exit"

(************************ C16 ************************)
L16 == Full => LET m == Im(3, 3, 1, x) g == Blank(m) ws == Two(m, g)
                   med == Res(ws, [op |-> "median", h |-> "a", g |-> "b", size |-> 3], "b") mean == Res(ws, [op |-> "meanblur", h |-> "a", g |-> "b", size |-> 3], "b")
                   I == Res(Two(m, SM(3, 3, 3, 1, Const(9, 5))), [op |-> "integral", h |-> "a", g |-> "b"], "b") II(i, j) == IF i < 0 \/ j < 0 THEN 0 ELSE I.d[i * 3 + j + 1] IN
  /\ SortSeq(x, LAMBDA p, q : p <= q)[5] = med.d[5] /\ \A i \in 1..9 : i # 5 => med.d[i] = x[i]
  /\ mean.d[5] = SumSeq(x) \div 9 /\ mean.d[1] = (x[1] + x[2] + x[4] + x[5]) \div 4
  /\ \A i, j \in 0..2 : II(i, j) - II(i - 1, j) - II(i, j - 1) + II(i - 1, j - 1) = Px(m, i, j, 0)
  /\ Res(ws, [op |-> "median", h |-> "a", g |-> "b", size |-> 1], "b") = m /\ Res(ws, [op |-> "meanblur", h |-> "a", g |-> "b", size |-> 1], "b") = m

(************************ C17 ************************)
SE(w, h, d) == [k |-> "D", wd |-> w, ht |-> h, d |-> d]
Elements == {SE(3, 3, Const(9, 1)), SE(3, 3, <<0, 1, 0, 1, 1, 1, 0, 1, 0>>), SE(3, 1, <<1, 1, 0>>), SE(1, 3, <<0, 1, 1>>), SE(1, 1, <<1>>)}
Sub(p, q) == \A i \in 1..Len(p) : p[i] = 1 => q[i] = 1
Inv(d) == [i \in 1..Len(d) |-> 1 - d[i]]
Refl(e) == [e EXCEPT !.d = [i \in 1..Len(e.d) |-> e.d[Len(e.d) + 1 - i]]]
L17 == Full => LET m == Im(3, N \div 3, 1, x) IN \A e \in Elements :
  LET er == ErodeD(m, e) di == DilateD(m, e) op == OpenIt(m, e, 1) cl == CloseIt(m, e, 1) IN
  /\ Sub(er, x) /\ Sub(x, di) /\ Sub(er, di)
  \* duality, and monotonicity in single pixels
  /\ Inv(ErodeD([m EXCEPT !.d = Inv(x)], e)) = di
  /\ \A i \in 1..N : LET y == [x EXCEPT ![i] = 1] IN Sub(er, ErodeD([m EXCEPT !.d = y], e)) /\ Sub(di, DilateD([m EXCEPT !.d = y], e))
  /\ OpenIt(m, e, 2) = OpenIt(op, e, 1) /\ CloseIt(m, e, 2) = CloseIt(cl, e, 1) /\ (Len(e.d) = 1 => op.d = x /\ cl.d = x)
  /\ op.d = Res([h \in {"a", "b", "e"} |-> IF h = "a" THEN m ELSE IF h = "b" THEN Blank(m) ELSE e], [op |-> "open", h |-> "a", g |-> "b", d |-> "e", it |-> 1], "b").d

(************************ C18 ************************)
L18 == Full => LET m == Im(2, 2, 1, x) ws == Two(m, Buf(3, Const(256, 7))) s == SumSeq(x) v == 4 * SumSeq([i \in 1..4 |-> x[i] * x[i]]) - s * s IN
  /\ LET h == Res(ws, [op |-> "hist", h |-> "a", g |-> "b"], "b").d IN SumSeq(h) = 4 /\ \A q \in 0..255 : h[q + 1] = Cardinality({i \in 1..4 : x[i] = q})
  /\ Says(ws, [op |-> "meanS", h |-> "a"], FEnc(s, -2)) /\ ~Says(ws, [op |-> "meanS", h |-> "a"], FEnc(4 * s + 1, -4))
  /\ Says(ws, [op |-> "varS", h |-> "a"], FEnc(v, -4)) /\ ~Says(ws, [op |-> "varS", h |-> "a"], FEnc(4 * v + 1, -6)) /\ v >= 0
  /\ (Cardinality({x[i] : i \in 1..4}) = 1 => Says(ws, [op |-> "entropy", h |-> "a"], F(0)) /\ Says(ws, [op |-> "contrast", h |-> "a"], F(0)) /\ v = 0)
  /\ (Cardinality({x[i] : i \in 1..4}) = 4 => Says(ws, [op |-> "entropy", h |-> "a"], F(2)))
  /\ (Cardinality({x[i] : i \in 1..4}) > 1 => ~Says(ws, [op |-> "entropy", h |-> "a"], F(0)))
  /\ LET c == Sq(x[1] - x[2]) + Sq(x[3] - x[4]) + Sq(x[1] - x[3]) + Sq(x[2] - x[4]) IN Says(ws, [op |-> "contrast", h |-> "a"], FEnc(c, -2)) /\ ~Says(ws, [op |-> "contrast", h |-> "a"], FEnc(c + 1, -2))
\* signed elements are signed
L18b == Full => LET m == SM(1, N, 2, 1, x) ws == Two(m, m) IN \A q \in -2..2 : (Says(ws, [op |-> "meanS", h |-> "a"], F(q)) <=> (q * N = SumSeq(x)))

(************************ C19 ************************)
\* x is a history: 0 pop, 1..2 push, 3.. erase at x-3
RECURSIVE Play(_, _)
Step(v, c) == LET ws == [h \in {"v"} |-> v] A(r) == ("v" :> v) IN
  Res(ws, IF c = 0 THEN [op |-> "vec", h |-> "v", fn |-> "pop"] ELSE IF c \in {1, 2} THEN [op |-> "vec", h |-> "v", fn |-> "push", x |-> c] ELSE [op |-> "vec", h |-> "v", fn |-> "erase", i |-> c - 3], "v")
Play(v, h) == IF h = <<>> THEN v ELSE Play(Step(v, Head(h)), Tail(h))
V0 == [k |-> "V", t |-> 1, d |-> <<>>]
L19 == LET v == Play(V0, x) IN
  /\ Len(v.d) <= Cardinality({i \in 1..Len(x) : x[i] \in {1, 2}})
  /\ (Len(x) > 0 /\ x[Len(x)] \in {1, 2} => v.d[Len(v.d)] = x[Len(x)] /\ Step(v, 0) = Play(V0, SubSeq(x, 1, Len(x) - 1)))
  /\ \A i \in 1..Len(v.d) : Step(v, 2 + i).d = SubSeq(v.d, 1, i - 1) \o SubSeq(v.d, i + 1, Len(v.d))
  /\ Step(v, 3 + Len(v.d)) = v
  /\ Says([h \in {"v"} |-> v], [op |-> "vec", h |-> "v", fn |-> "cap"], Len(v.d)) /\ (Len(v.d) > 0 => ~Says([h \in {"v"} |-> v], [op |-> "vec", h |-> "v", fn |-> "cap"], Len(v.d) - 1))

(************************ C20 ************************)
Mat(i) == <<F(x[i]), F(x[i + 1]), F(x[i + 2]), F(x[i + 3])>>
Prod(i, j) == <<x[i] * x[j] + x[i + 1] * x[j + 2], x[i] * x[j + 1] + x[i + 1] * x[j + 3], x[i + 2] * x[j] + x[i + 3] * x[j + 2], x[i + 2] * x[j + 1] + x[i + 3] * x[j + 3]>>
L20 == Full => LET z == Buf(4, Const(5, F(9))) ws == [h \in {"a", "b", "z"} |-> IF h = "a" THEN Buf(4, Mat(1)) ELSE IF h = "b" THEN Buf(4, Mat(5)) ELSE z]
                   o == [op |-> "matmul", ty |-> "float", x |-> "a", y |-> "b", z |-> "z", m |-> 2, k |-> 2, n |-> 2] p == [i \in 1..4 |-> F(Prod(1, 5)[i])] IN
  /\ Takes(ws, o, "z", Buf(4, p \o <<F(9)>>)) /\ ~Takes(ws, o, "z", Buf(4, p \o <<F(8)>>))
  /\ \A i \in 1..4 : ~Takes(ws, o, "z", Buf(4, [p EXCEPT ![i] = F(Prod(1, 5)[i] + 1)] \o <<F(9)>>))
  /\ LET c == [o EXCEPT !.op = "matcorr"] IN Takes(ws, c, "z", Buf(4, [i \in 1..4 |-> FEnc(Prod(1, 5)[i], -1)] \o <<F(9)>>)) /\ (Takes(ws, c, "z", Buf(4, p \o <<F(9)>>)) => \A i \in 1..4 : Prod(1, 5)[i] = 0)
  /\ (Takes(ws, [op |-> "invert", x |-> "a", z |-> "z", m |-> 2], "z", Buf(4, Mat(5) \o <<F(9)>>)) <=> (Prod(1, 5) = <<1, 0, 0, 1>>))
  /\ Res(ws, [op |-> "mattrans", ty |-> "float", x |-> "a", z |-> "z", m |-> 2, n |-> 2], "z").d = <<F(x[1]), F(x[3]), F(x[2]), F(x[4]), F(9)>>
  /\ LET s == Res(ws, [op |-> "sortdown", x |-> "a", n |-> 4], "a").d IN \A i \in 1..3 : s[i][1] = 0 \/ DLe(DF(s[i + 1]), DF(s[i]))
  /\ LET n2 == x[1] * x[1] + x[2] * x[2] + x[3] * x[3] + x[4] * x[4] IN \A q \in 0..4 : (Says(ws, [op |-> "norm", x |-> "a", n |-> 4], F(q)) <=> (q * q = n2))
  /\ Res(ws, [op |-> "swaprows", x |-> "a", m |-> 2, n |-> 2, r1 |-> 0, r2 |-> 1], "a").d = <<F(x[3]), F(x[4]), F(x[1]), F(x[2])>>

(************************ C22 ************************)
L22 == Full => LET g == Im(1, 1, 1, <<x[1]>>) c == Im(1, 1, 3, <<x[1], x[2], x[3]>>) B == Two(g, Blank(g)) rgb == Res(B, [op |-> "gray2rgb", h |-> "a", g |-> "q"], "q") IN
  /\ \A k \in 0..2 : Res(Two(rgb, g), [op |-> "rgb2gray", h |-> "a", g |-> "q", m |-> k], "q") = g
  /\ \A k \in 0..2 : LET y == Res(Two(c, g), [op |-> "rgb2gray", h |-> "a", g |-> "q", m |-> k], "q").d[1] IN y \in Min2(x[1], Min2(x[2], x[3]))..Max2(x[1], Max2(x[2], x[3]))
  /\ LET s == Res(Two(c, Blank(c)), [op |-> "bgr2rgb", h |-> "a", g |-> "b"], "b") IN s.d = <<x[3], x[2], x[1]>> /\ Res(Two(s, Blank(c)), [op |-> "bgr2rgb", h |-> "a", g |-> "b"], "b") = c

(************************ C24, C25, C33, C34 ************************)
NZ(i) == x[i] # 0 \/ x[i + 1] # 0
Sp(i) == <<F(x[i]), F(x[i + 1])>>
Dot(i, j) == x[i] * x[j] + x[i + 1] * x[j + 1]
Angles == {<<0, 0>>, <<6588397, -23>>, <<6588397, -22>>, <<9882596, -22>>, <<13176795, -22>>, <<1, -1>>} \* 0, pi/4, pi/2, 3pi/4, pi, 1/2
L24 == Full => (NZ(1) /\ NZ(3) =>
  LET ws == Two(Buf(4, Sp(1)), Buf(4, Sp(3))) o == [op |-> "sam", x |-> "a", y |-> "b", n |-> 2] sw == [op |-> "sam", x |-> "b", y |-> "a", n |-> 2]
      q == Dot(1, 3) nn == Dot(1, 1) * Dot(3, 3) IN
  /\ \A v \in Angles : Says(ws, o, v) = Says(ws, sw, v)
  /\ (Says(ws, o, <<0, 0>>) <=> (q > 0 /\ q * q = nn))
  /\ (Says(ws, o, <<6588397, -22>>) <=> (q = 0))
  /\ (Says(ws, o, <<13176795, -22>>) <=> (q < 0 /\ q * q = nn))
  /\ (Says(ws, o, <<6588397, -23>>) <=> (q > 0 /\ 2 * q * q = nn))
  /\ LET e2 == Dot(1, 1) + Dot(3, 3) - 2 * q IN \A r \in 0..6 : (Says(ws, [op |-> "eucl", x |-> "a", y |-> "b", n |-> 2], F(r)) <=> (r * r = e2))
  /\ LET h == HM(1, 1, 2, 4, "bip", <<F(1), F(2)>>, Sp(1)) m(th) == [op |-> "sammatch", h |-> "a", x |-> "b", th |-> th, g |-> "q"] in(th) == Takes(Two(h, Buf(4, Sp(3))), m(th), "q", SM(1, 1, 1, 1, <<1>>)) out(th) == Takes(Two(h, Buf(4, Sp(3))), m(th), "q", SM(1, 1, 1, 1, <<0>>)) IN
     /\ in(<<7, -3>>) # out(<<7, -3>>) /\ (in(<<7, -3>>) <=> (q > 0 /\ 10000 * q * q >= 4109 * nn)) /\ in(<<4, 0>>))
L25 == Full => LET h == HM(2, 1, 2, 12, "bip", <<F(1), F(2)>>, <<3, 5, 7, 11>>) k == Buf(4, <<F(x[1]), F(x[2]), F(x[3]), F(x[4])>>) want == <<3 * x[1], 5 * x[3], 7 * x[2], 11 * x[4]>>
                   o == [op |-> "relrad", h |-> "a", k |-> "b", g |-> "q"] R(d) == HM(2, 1, 2, 4, "bip", <<F(1), F(2)>>, [i \in 1..4 |-> F(d[i])]) IN
  /\ Takes(Two(h, k), o, "q", R(want)) /\ \A i \in 1..4 : ~Takes(Two(h, k), o, "q", R([want EXCEPT ![i] = @ + 1]))
  /\ LET hf == [h EXCEPT !.t = 4, !.d = <<F(3), F(5), F(7), F(11)>>] a == [o EXCEPT !.op = "absrad"] w2 == <<3 * x[1], 5 * x[2], 7 * x[1], 11 * x[2]>> IN
     Takes(Two(hf, k), a, "q", R(w2)) /\ \A i \in 1..4 : ~Takes(Two(hf, k), a, "q", R([w2 EXCEPT ![i] = @ + 1]))
L33 == Full => LET a == Im(1, 2, 1, <<x[1], x[2]>>) b == Im(1, 2, 1, <<x[3], x[4]>>) W == [h \in {"a", "b", "c"} |-> IF h = "a" THEN a ELSE IF h = "b" THEN b ELSE Blank(a)]
                   S(p, q) == Res(W, [op |-> "addS", fn |-> "uchar", h |-> p, h2 |-> q, g |-> "c"], "c").d IN
  S("a", "b") = S("b", "a") /\ S("a", "b")[2] = x[2] + x[4] /\ S("a", "a")[1] = 2 * x[1]
\* orthonormal factor times triangular factor: the only accepted pair for a signed permutation scaled by columns
L34 == Full => (x[1] > 0 /\ x[2] > 0 /\ x[3] # 0 /\ x[4] # 0 =>
  LET s(v) == IF v > 0 THEN 1 ELSE -1 A == Buf(4, <<F(0), F(s(x[4]) * x[2]), F(s(x[3]) * x[1]), F(0)>>) Q(u, v) == Buf(4, <<F(0), F(v), F(u), F(0)>>) R(p, q) == Buf(4, <<F(p), F(0), F(0), F(q)>>)
      ws == [h \in {"a", "q", "r"} |-> A] T(q, r) == Accepts(ws, [op |-> "qr", x |-> "a", q |-> "q", r |-> "r", m |-> 2], "ok", [z |-> 0], [ws EXCEPT !["q"] = q, !["r"] = r]) IN
  /\ T(Q(s(x[3]), s(x[4])), R(x[1], x[2])) /\ ~T(Q(-s(x[3]), s(x[4])), R(-x[1], x[2])) /\ (~T(Q(s(x[3]), s(x[4])), R(x[1], x[2] + 1))))
=============================================================================
