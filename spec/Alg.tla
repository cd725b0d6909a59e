-------------------------------- MODULE Alg --------------------------------
(* The algorithm and highgui modules: discrete Fourier transform, clustering, target detection, shape moments, drawing,
   normalisation and histogram equalisation, rotation, principal components and edge energy. *)
EXTENDS Proc

(*************************** Fourier ***************************)
\* sum over q of x[q] e^(sg 2 pi i p q / n), for a complex sequence x of pairs indexed 0..n-1
CMulAdd(acc, x, c, s) == <<DAdd(acc[1], DSub(DMul(x[1], c), DMul(x[2], s))), DAdd(acc[2], DAdd(DMul(x[1], s), DMul(x[2], c)))>>
Line(x, n, p, sg) == FoldLeft(LAMBDA acc, q : CMulAdd(acc, x[q], CosTab[n][((p * q) % n) + 1], IF sg > 0 THEN SinTab[n][((p * q) % n) + 1] ELSE DNeg(SinTab[n][((p * q) % n) + 1])),
                              <<DZero, DZero>>, [q \in 1..n |-> q - 1])
\* unnormalised two-dimensional transform of X[i][j] (0-based, complex); sg = -1 forward, 1 backward
Fourier(X, R, K, sg) ==
  LET H == TLCEval([i \in 0..(R - 1) |-> TLCEval([v \in 0..(K - 1) |-> TLCEval(Line(X[i], K, v, sg))])])
      T == TLCEval([v \in 0..(K - 1) |-> TLCEval([i \in 0..(R - 1) |-> H[i][v]])])
  IN  TLCEval([u \in 0..(R - 1) |-> TLCEval([v \in 0..(K - 1) |-> TLCEval(Line(T[v], R, u, sg))])])
Real2(m, F(_)) == TLCEval([i \in 0..(m.r - 1) |-> TLCEval([j \in 0..(m.c - 1) |-> <<F(m.d[i * m.c + j + 1]), DZero>>])])
SqrtN(m) == DSqrt(DI(m.r * m.c), 5)
Gray4(m) == m.t = 4 /\ m.ch = 1
DftSrc(o) == CASE o.fn = "uchar" -> {1} [] o.fn = "ushort" -> {12} [] OTHER -> {1, 12}
Dft(ws, o, w) ==
  IF o.h = Null \/ o.g = Null \/ o.g2 = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] c == ws[o.g2] IN
       IF a.r # b.r \/ a.c # b.c \/ a.r # c.r \/ a.c # c.c \/ ~Gray4(b) \/ ~Gray4(c) \/ a.ch # 1 THEN Refuse
       ELSE IF a.t \notin DftSrc(o) THEN Skip
       ELSE IF ~w.ok THEN Skip
       ELSE IF /\ HasData(w, o.g, b) /\ HasData(w, o.g2, c) /\ FinAll(4, w.nws[o.g].d) /\ FinAll(4, w.nws[o.g2].d)
               /\ LET F == Fourier(Real2(a, LAMBDA x : DI(x)), a.r, a.c, -1) n == SqrtN(a) tol == DM(SumSeq(a.d), -13) IN
                  \A p \in 1..(a.r * a.c) : LET z == F[(p - 1) \div a.c][(p - 1) % a.c] IN
                    DNear(DMul(DF(w.nws[o.g].d[p]), n), z[1], tol) /\ DNear(DMul(DF(w.nws[o.g2].d[p]), n), z[2], tol)
       THEN Ok(NoRet, << <<o.g, [b EXCEPT !.d = w.nws[o.g].d]>>, <<o.g2, [c EXCEPT !.d = w.nws[o.g2].d]>> >>, {}) ELSE Mismatch
\* d is x/s limited to 0..hi, rounded within half+eps
RoundsTo(d, x, s, hi, eps) ==
  LET h == DAdd(DShift(s, -1), eps) v == DMul(DI(d), s) IN
  /\ d \in 0..hi
  /\ d < hi => DLe(x, DAdd(v, h))
  /\ d > 0 => DLe(DSub(v, h), x)
IdftDst(o) == CASE o.fn = "uchar" -> {1} [] o.fn = "ushort" -> {12} [] OTHER -> {1, 12}
Idft(ws, o, w) ==
  LET a == ws[o.h] b == ws[o.h2] g == ws[o.g] IN
  IF o.fn = "gen" /\ g.t \notin {1, 12} THEN Skip
  ELSE IF a.r # b.r \/ a.c # b.c \/ a.r # g.r \/ a.c # g.c \/ a.t # 4 \/ b.t # 4 \/ g.t \notin IdftDst(o) THEN Refuse
  ELSE RelData(w, o.g, g, LAMBDA d :
         LET X == TLCEval([i \in 0..(a.r - 1) |-> TLCEval([j \in 0..(a.c - 1) |-> <<DF(a.d[i * a.c + j + 1]), DF(b.d[i * a.c + j + 1])>>])])
             F == Fourier(X, a.r, a.c, 1) n == SqrtN(a)
             tol == DShift(DAdd(SumAbs(FVec(a.d, 0, Len(a.d))), SumAbs(FVec(b.d, 0, Len(b.d)))), -15)
         IN  \A p \in 1..Len(d) : RoundsTo(d[p], F[(p - 1) \div a.c][(p - 1) % a.c][1], n, IF g.t = 1 THEN 255 ELSE 65535, tol))
Norm2(z) == DAdd(DMul(z[1], z[1]), DMul(z[2], z[2]))
\* the magnitude with the zero frequency in the middle
Spectrum(ws, o, w) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] g == ws[o.g] IN
       IF a.r # g.r \/ a.c # g.c THEN Refuse
       ELSE RelData(w, o.g, g, LAMBDA d :
              LET X == TLCEval([i \in 0..(a.r - 1) |-> TLCEval([j \in 0..(a.c - 1) |-> <<DI(IF (i + j) % 2 = 0 THEN a.d[i * a.c + j + 1] ELSE -a.d[i * a.c + j + 1]), DZero>>])])
                  F == Fourier(X, a.r, a.c, -1) N == DI(a.r * a.c)
                  slack == DAdd(DM(1, -1), DDiv(DM(SumSeq(a.d), -13), SqrtN(a), 4))
                  S2(x) == DMul(DMul(x, x), N)
              IN  \A p \in 1..Len(d) : LET z == Norm2(F[(p - 1) \div a.c][(p - 1) % a.c]) IN
                    /\ d[p] < 255 => DLe(z, S2(DAdd(DI(d[p]), slack)))
                    /\ d[p] > 0 => DLe(S2(DSub(DI(d[p]), slack)), z))
Magnitude(ws, o, w) ==
  LET a == ws[o.h] b == ws[o.h2] g == ws[o.g] IN
  IF a.r # b.r \/ a.c # b.c \/ a.r # g.r \/ a.c # g.c \/ a.t # 4 \/ b.t # 4 \/ g.t # 4 THEN Refuse
  ELSE RelData(w, o.g, g, LAMBDA d : \A p \in 1..Len(d) : LET z == Norm2(<<DF(a.d[p]), DF(b.d[p])>>) v == DF(d[p]) IN v[1] >= 0 /\ DClose(DMul(v, v), z, z, 20))
\* transform sizes: products of 2, 3 and 5 with at most 14 threes, up to the largest one on record
TopSize == 2125764000
OddSizes == TLCEval({z[1] * z[2] : z \in {z \in {3 ^ k : k \in 0..14} \X {5 ^ k : k \in 0..13} : z[1] <= TopSize \div z[2]}})
RECURSIVE Doubled(_, _)
Doubled(v, n) == IF v >= n THEN v ELSE IF v > TopSize \div 2 THEN TopSize ELSE Doubled(2 * v, n)
BestSize(n) == LET c == {Doubled(v, n) : v \in OddSizes} IN CHOOSE m \in c : \A x \in c : m <= x
OptDft(ws, o) == Ok([v |-> [i \in 1..Len(o.n) |-> IF o.n[i] < 0 \/ o.n[i] >= TopSize THEN -1 ELSE BestSize(o.n[i])]], <<>>, {})

(*************************** clustering ***************************)
\* the abstract algorithm: centres move to the truncated mean of the pixels nearest to them (ties to the first centre);
\* a centre with no pixel stays
FgOf(m) == LET g == IF m.ch = 1 THEN m.d ELSE GreyOf(m) IN {p \in 0..(m.r * m.c - 1) : g[p + 1] # 0}
NearestTo(cs, K, x, y) == CHOOSE k \in 1..K : LET dk == Sq(cs[k][1] - x) + Sq(cs[k][2] - y) IN
                            \A j \in 1..K : LET dj == Sq(cs[j][1] - x) + Sq(cs[j][2] - y) IN IF j < k THEN dj > dk ELSE dj >= dk
Settle(cs, K, m, fg) ==
  LET own == TLCEval([p \in fg |-> NearestTo(cs, K, p % m.c, p \div m.c)]) IN
  [k \in 1..K |-> LET mine == {p \in fg : own[p] = k} n == Cardinality(mine) IN
     IF n = 0 THEN cs[k]
     ELSE <<FoldSet(LAMBDA p, s : s + (p % m.c), 0, mine) \div n, FoldSet(LAMBDA p, s : s + (p \div m.c), 0, mine) \div n>>]
RECURSIVE Prevs(_, _, _, _)
Prevs(cs, K, k, th) == IF k > K THEN {<<>>} ELSE {<<c>> \o q : c \in {<<x, y>> : x \in (cs[k][1] - th)..(cs[k][1] + th), y \in (cs[k][2] - th)..(cs[k][2] + th)}, q \in Prevs(cs, K, k + 1, th)}
\* clustering ends in centres that are one step from centres at most th away
KMeans(ws, o, w) ==
  IF o.h = Null \/ o.kind < 1 \/ o.n # o.kind \/ o.th < 0 THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.ch \notin {1, 3} THEN Refuse
       ELSE RelRet(w, LAMBDA v :
         LET fg == FgOf(m) cs == [k \in 1..o.kind |-> <<v[k][1], v[k][2]>>]
             In(q) == \A k \in 1..o.kind : q[k][1] \in 0..(m.c - 1) /\ q[k][2] \in 0..(m.r - 1)
         IN  Len(v) = o.kind /\ In(cs) /\ (Settle(cs, o.kind, m, fg) = cs \/ \E q \in Prevs(cs, o.kind, 1, o.th) : In(q) /\ Settle(q, o.kind, m, fg) = cs))

(*************************** constrained energy minimisation ***************************)
\* adjugate of a symmetric matrix A[i][j] (1-based, n <= 4)
RECURSIVE Det(_, _, _)
Drop(q, x) == SelectSeq(q, LAMBDA y : y # x)
Det(A, rs, cs) == IF Len(rs) = 0 THEN D1 ELSE IF Len(rs) = 1 THEN A[rs[1]][cs[1]]
                  ELSE FoldLeft(LAMBDA acc, k : LET t == DMul(A[rs[1]][cs[k]], Det(A, Tail(rs), Drop(cs, cs[k]))) IN IF k % 2 = 1 THEN DAdd(acc, t) ELSE DSub(acc, t), DZero, [k \in 1..Len(cs) |-> k])
Ids(n) == [i \in 1..n |-> i]
Adj(A, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> LET d == Det(A, Drop(Ids(n), j), Drop(Ids(n), i)) IN IF (i + j) % 2 = 0 THEN d ELSE DNeg(d)])])
PixVec(m, i, j) == TLCEval([k \in 1..m.b |-> DV(m.t, m.d[Pos(m.il, m.s, m.l, m.b, i, j, k - 1) + 1])])
Cem(ws, o, w) ==
  LET m == ws[o.h] IN
  IF m.t # 4 THEN Refuse
  ELSE LET n == m.l * m.s obj == SM(m.l, m.s, 4, 1, Const(n, <<0, 0>>)) IN
       IF ~w.ok THEN Skip
       ELSE IF /\ HasData(w, o.g, obj) /\ FinAll(4, w.nws[o.g].d)
               /\ LET X == TLCEval([p \in 1..n |-> PixVec(m, (p - 1) \div m.s, (p - 1) % m.s)]) d == FVec(ws[o.x].d, 0, m.b)
                      R == TLCEval([i \in 1..m.b |-> TLCEval([j \in 1..m.b |-> DDot([p \in 1..n |-> X[p][i]], [p \in 1..n |-> X[p][j]])])])
                      A == Adj(R, m.b) f == TLCEval([i \in 1..m.b |-> DDot(A[i], d)]) q == DDot(d, f) sf == SumAbs(f)
                  IN  \A p \in 1..n : DNear(DMul(DF(w.nws[o.g].d[p]), q), DDot(f, X[p]), DShift(DMul(sf, SumAbs(X[p])), -10))
            THEN Ok([null |-> 0], << <<o.g, [obj EXCEPT !.d = w.nws[o.g].d]>> >>, {}) ELSE Mismatch

(*************************** shape moments ***************************)
\* central moments scaled by the mass: M(p,q) = sum (x S - s10)^p (y S - s01)^q d = S^(p+q) mu(p,q), and with |.|
Moments(m) ==
  LET S == SumSeq(m.d) n == m.r * m.c
      s10 == SumF(LAMBDA p : (p % m.c) * m.d[p + 1], 0, n - 1) s01 == SumF(LAMBDA p : (p \div m.c) * m.d[p + 1], 0, n - 1)
      nz == SelectSeq([p \in 1..n |-> p - 1], LAMBDA p : m.d[p + 1] # 0)
      X == TLCEval([k \in 1..Len(nz) |-> DI((nz[k] % m.c) * S - s10)]) Y == TLCEval([k \in 1..Len(nz) |-> DI((nz[k] \div m.c) * S - s01)])
      D == TLCEval([k \in 1..Len(nz) |-> DI(m.d[nz[k] + 1])])
      M(p, q) == DSum([k \in 1..Len(nz) |-> DMul(D[k], DMul(DPow(X[k], p), DPow(Y[k], q)))])
      A(p, q) == DSum([k \in 1..Len(nz) |-> DMul(D[k], DMul(DPow(DAbs(X[k]), p), DPow(DAbs(Y[k]), q)))])
  IN  [S |-> S, M |-> TLCEval(<<M(2, 0), M(0, 2), M(1, 1), M(3, 0), M(0, 3), M(1, 2), M(2, 1)>>), A |-> TLCEval(<<A(2, 0), A(0, 2), A(1, 1), A(3, 0), A(0, 3), A(1, 2), A(2, 1)>>)]
\* the seven invariants over powers of the mass: hu[i] = H[i] / S^HuPow[i]; sub(x,y) is x - y (or x + y for magnitudes)
HuPow == <<4, 8, 11, 11, 22, 15, 22>>
D3(x) == DMul(DI(3), x)
HuOf(M, Sub(_, _)) ==
  LET t1 == Sub(M[1], M[2]) t2 == Sub(M[4], D3(M[6])) t3 == Sub(D3(M[7]), M[5]) t4 == DAdd(M[4], M[6]) t5 == DAdd(M[7], M[5])
      q4 == DMul(t4, t4) q5 == DMul(t5, t5) a == Sub(q4, D3(q5)) b == Sub(D3(q4), q5)
  IN  TLCEval(<<DAdd(M[1], M[2]), DAdd(DMul(t1, t1), DMul(DI(4), DMul(M[3], M[3]))), DAdd(DMul(t2, t2), DMul(t3, t3)), DAdd(q4, q5),
        DAdd(DMul(DMul(t2, t4), a), DMul(DMul(t3, t5), b)), DAdd(DMul(t1, Sub(q4, q5)), DMul(DI(4), DMul(M[3], DMul(t4, t5)))),
        Sub(DMul(DMul(t3, t4), a), DMul(DMul(t2, t5), b))>>)
HuTol == -30
Hu(ws, o, w) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET m == ws[o.h] mo == Moments(m) IN
       RelData(w, o.g, ws[o.g], LAMBDA d :
         IF mo.S = 0 THEN \A i \in 1..7 : DD(d[i]) = DZero
         ELSE LET h == HuOf(mo.M, DSub) a == HuOf(mo.A, DAdd) IN \A i \in 1..7 : DNear(DMul(DD(d[i]), DPow(DI(mo.S), HuPow[i])), h[i], DShift(a[i], HuTol)))
HuReal(m) == LET mo == Moments(m) IN
             IF mo.S = 0 THEN [h |-> Const(7, DZero), a |-> Const(7, DZero)]
             ELSE LET h == HuOf(mo.M, DSub) a == HuOf(mo.A, DAdd) IN
                  [h |-> TLCEval([i \in 1..7 |-> DDiv(h[i], DPow(DI(mo.S), HuPow[i]), 10)]), a |-> TLCEval([i \in 1..7 |-> DDiv(a[i], DPow(DI(mo.S), HuPow[i]), 4)])]
\* similarity: 1 - sum |x - y| / sum |x + y|
Match(ws, o, w) ==
  IF o.h = Null \/ o.h2 = Null THEN Refuse
  ELSE LET x == HuReal(ws[o.h]) y == HuReal(ws[o.h2])
           t1 == DSum([i \in 1..7 |-> DAbs(DSub(x.h[i], y.h[i]))]) t2 == DSum([i \in 1..7 |-> DAbs(DAdd(x.h[i], y.h[i]))])
           tol == DShift(DAdd(DSum(x.a), DSum(y.a)), HuTol)
       IN  RelRet(w, LAMBDA v : v[3] # 999 /\ IF t2 = DZero THEN DD(v) = D1 ELSE DNear(DMul(DSub(D1, DD(v)), t2), t1, tol))

(*************************** drawing ***************************)
\* the brush of half-width q around (x,y), clipped to the image: offsets of pixels
Brush(m, x, y, q) == {i * m.c + j : i \in Max2(0, y - q)..Min2(m.r - 1, y + q), j \in Max2(0, x - q)..Min2(m.c - 1, x + q)}
InkAt(m, o, c) == IF m.ch = 1 THEN o.col[1] ELSE o.col[3 - c] \* (r,g,b); pixels are b,g,r
CDiv(a, b) == -((-a) \div b)
\* for each step along the longer axis, the positions nearest to the ideal line
LineSpots(o) ==
  LET x == o.pts[1] y == o.pts[2] dx == o.pts[3] - x dy == o.pts[4] - y n == Max2(Abs(dx), Abs(dy)) IN
  IF n = 0 THEN << {<<x, y>>} >>
  ELSE [k \in 1..(n + 1) |-> LET t == k - 1 IN
          {<<x + a, y + b>> : a \in {CDiv(2 * dx * t - n, 2 * n), (2 * dx * t + n) \div (2 * n)}, b \in {CDiv(2 * dy * t - n, 2 * n), (2 * dy * t + n) \div (2 * n)}}]
Inked(m, o, d, p) == \A c \in 0..(m.ch - 1) : d[p * m.ch + c + 1] = InkAt(m, o, c)
Kept(m, d, p) == \A c \in 0..(m.ch - 1) : d[p * m.ch + c + 1] = m.d[p * m.ch + c + 1]
Draw(ws, o, w) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET m == ws[o.h] g == ws[o.g] q == o.size \div 2 all == 0..(m.r * m.c - 1) IN
       IF m.t # 1 \/ ~SameGeom(m, g) THEN Refuse
       ELSE IF m.ch \notin {1, 3} THEN Put(o.g, [g EXCEPT !.d = m.d])
       ELSE IF o.fn = "point"
       THEN LET ink == UNION {Brush(m, o.pts[2 * k - 1], o.pts[2 * k], q) : k \in 1..(Len(o.pts) \div 2)} IN
            Put(o.g, [g EXCEPT !.d = [p \in 1..Len(m.d) |-> IF (p - 1) \div m.ch \in ink THEN InkAt(m, o, (p - 1) % m.ch) ELSE m.d[p]]])
       ELSE LET spots == LineSpots(o) may == UNION {Brush(m, s[1], s[2], q) : s \in UNION {spots[k] : k \in 1..Len(spots)}} IN
            RelData(w, o.g, g, LAMBDA d :
              LET ink == {p \in may : Inked(m, o, d, p)} IN
              /\ \A k \in 1..Len(spots) : \E s \in spots[k] : Brush(m, s[1], s[2], q) \subseteq ink
              /\ \A p \in all \ ink : Kept(m, d, p))

(*************************** normalisation ***************************)
\* half a level, plus what single precision may lose
Half == DAdd(DM(1, -1), DM(1, -10))
RoundsD(d, x) == RoundsTo(d, x, D1, 255, DM(1, -10))
NormKinds == {1, 2, 4, 32}
NormScale(k, q) == CASE k = 1 -> FoldLeft(LAMBDA a, x : IF DLe(a, DAbs(x)) THEN DAbs(x) ELSE a, DZero, q) [] k = 2 -> SumAbs(q) [] k = 4 -> DSqrt(DDot(q, q), 6)
DMinMax(q) == <<FoldLeft(LAMBDA a, x : IF DLe(x, a) THEN x ELSE a, q[1], q), FoldLeft(LAMBDA a, x : IF DLe(a, x) THEN x ELSE a, q[1], q)>>
\* the exact normalised values and the magnitude their error is relative to
Normed(k, q, al, be) ==
  IF k = 32
  THEN LET mm == DMinMax(q) span == DSub(mm[2], mm[1]) a == IF DLe(al, be) THEN al ELSE be b == IF DLe(al, be) THEN be ELSE al IN
       [v |-> TLCEval([i \in 1..Len(q) |-> IF span = DZero THEN a ELSE DAdd(a, DDiv(DMul(DSub(q[i], mm[1]), DSub(b, a)), span, 6))]), s |-> Const(Len(q), DAdd(DAbs(a), DAbs(b)))]
  ELSE LET n == NormScale(k, q) v == TLCEval([i \in 1..Len(q) |-> IF n = DZero THEN DZero ELSE DDiv(DMul(q[i], al), n, 6)]) IN [v |-> v, s |-> v]
Normz(ws, o, w) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] fn == IF o.fn # "gen" THEN o.fn ELSE IF a.t = 1 THEN "uchar" ELSE IF a.t = 4 THEN "float" ELSE "none" IN
       IF a.r # b.r \/ a.c # b.c \/ (fn # "none" /\ (a.ch # b.ch \/ a.t # b.t)) THEN Refuse
       ELSE IF fn = "none" \/ o.nt \notin NormKinds THEN Skip
       ELSE LET e == Normed(o.nt, DSeq(a.t, a.d), DF(o.alpha), DF(o.beta)) IN
            RelData(w, o.g, b, LAMBDA d : \A i \in 1..Len(d) : IF fn = "uchar" THEN RoundsD(d[i], e.v[i]) ELSE DClose(DF(d[i]), e.v[i], e.s[i], 18))
\* each level goes to floor(255 * share of pixels at or below it)
Equalise(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] n == a.r * a.c IN
       IF a.r # b.r \/ a.c # b.c \/ a.t # 1 \/ b.t # 1 \/ a.ch # 1 \/ b.ch # 1 THEN Refuse
       ELSE LET L == Levels(a.d) cum == FoldLeftDomain(LAMBDA s, v : Append(s, L[v] + (IF v = 1 THEN 0 ELSE s[v - 1])), <<>>, L)
                lut == TLCEval([v \in 0..255 |-> (cum[v + 1] * 255) \div n]) IN Put(o.g, [b EXCEPT !.d = [i \in 1..n |-> lut[a.d[i]]]])
\* linear stretch of every band to 0..255; only pixels whose value is zero become 0
TenseLevel(p, zero) == IF p <= 0 THEN IF zero THEN 0 ELSE 1 ELSE Min2(p, 255)
Tension(ws, o, w) ==
  LET m == ws[o.h] g == ws[o.g] n == m.s * m.l IN
  IF m.il # "bsq" \/ ~SameShape(m, g) \/ g.t # 1 \/ m.t # 4 THEN Refuse
  ELSE RelData(w, o.g, g, LAMBDA d :
         \A k \in 0..(m.b - 1) :
           LET q == FVec(m.d, k * n, n) mm == DMinMax(q) span == DSub(mm[2], mm[1]) IN
           IF span = DZero THEN \A i \in 1..n : d[k * n + i] = TenseLevel(0, q[i] = DZero)
           ELSE LET big == IF DLe(DAbs(mm[1]), DAbs(mm[2])) THEN DAbs(mm[2]) ELSE DAbs(mm[1])
                    tau == DAdd(DDiv(DShift(DMul(big, DI(255)), -20), span, 4), DM(1, -12))
                IN  \A i \in 1..n : LET x == DDiv(DMul(DSub(q[i], mm[1]), DI(255)), span, 6) IN
                      d[k * n + i] \in {TenseLevel(p, q[i] = DZero) : p \in DFix(DSub(x, tau), 0)..DFix(DAdd(x, tau), 0)})

(*************************** rotation ***************************)
\* o.angle is m * 2^e degrees with -8 <= e <= 0
Turn(a) == (a[1] * Pow2(a[2] + 8)) % 92160
Fx == 20
\* twice the ideal row and column of source pixel (i,j) in the result of H rows and W columns, in units of 2^-20
RotRow(m, c, s, H, i, j) == (2 * i - m.l + 1) * c + (2 * j - m.s + 1) * s + (H - 1) * Pow2(Fx)
RotCol(m, c, s, W, i, j) == (2 * j - m.s + 1) * c - (2 * i - m.l + 1) * s + (W - 1) * Pow2(Fx)
\* cells that position x (in units of 2^-21) may be rounded to
Cells(x) == {(x + Pow2(Fx) + e) \div Pow2(Fx + 1) : e \in {-1024, 1024}}
SizeIs(n, x) == DLe(DSub(x, DM(1, -8)), DI(n)) /\ DLe(DI(n), DAdd(x, DSub(D1, DM(1, -11))))
Rotate(ws, o, w) ==
  LET m == ws[o.h] t == Turn(o.angle) C == CosTurn(t, 92160) S == SinTurn(t, 92160) c == DFix(C, Fx) s == DFix(S, Fx) IN
  IF ~w.ok THEN Skip
  ELSE IF o.g \notin DOMAIN w.nws \/ w.nws[o.g].k # "H" THEN Mismatch
  ELSE LET g == w.nws[o.g] W == g.s H == g.l obj == HM(W, H, m.b, m.t, "bip", m.w, g.d)
           rows == TLCEval([p \in 0..(m.l * m.s - 1) |-> Cells(RotRow(m, c, s, H, p \div m.s, p % m.s))])
           cols == TLCEval([p \in 0..(m.l * m.s - 1) |-> Cells(RotCol(m, c, s, W, p \div m.s, p % m.s))])
           Src(p) == [k \in 1..m.b |-> m.d[Pos(m.il, m.s, m.l, m.b, p \div m.s, p % m.s, k - 1) + 1]]
           Out(u, v) == SubSeq(g.d, (u * W + v) * m.b + 1, (u * W + v + 1) * m.b)
       IN  IF /\ SizeIs(W, DAdd(DMul(DI(m.s), DAbs(C)), DMul(DI(m.l), DAbs(S)))) /\ SizeIs(H, DAdd(DMul(DI(m.l), DAbs(C)), DMul(DI(m.s), DAbs(S))))
              /\ Len(g.d) = W * H * m.b
              /\ \A u \in 0..(H - 1) : \A v \in 0..(W - 1) :
                   LET can == {p \in 0..(m.l * m.s - 1) : u \in rows[p] /\ v \in cols[p]} IN
                   \/ \E p \in can : Out(u, v) = Src(p)
                   \/ Out(u, v) = Const(m.b, Zero(m.t)) /\ \A p \in can : Cardinality(rows[p]) * Cardinality(cols[p]) > 1
           THEN New(o.g, obj) ELSE Mismatch

(*************************** principal components ***************************)
\* the result is the centred data in an orthonormal basis (all inner products of pixels are kept) in which the bands are
\* uncorrelated and have decreasing energy
Pca(ws, o, w) ==
  LET m == ws[o.h] g == ws[o.g] n == m.s * m.l IN
  IF m.t # 4 \/ m.il # "bip" \/ g.t # 4 \/ g.s # m.s \/ g.l # m.l \/ g.b # m.b THEN Refuse
  ELSE RelData(w, o.g, g, LAMBDA d :
         LET X0 == FVec(m.d, 0, n * m.b) N == DI(n)
             mean == TLCEval([k \in 1..m.b |-> DDiv(DSum([p \in 1..n |-> X0[(p - 1) * m.b + k]]), N, 5)])
             X == TLCEval([p \in 1..n |-> TLCEval([k \in 1..m.b |-> DTrunc(DSub(X0[(p - 1) * m.b + k], mean[k]), 4)])])
             Y == TLCEval([p \in 1..n |-> FVec(d, (p - 1) * m.b, m.b)])
             e == TLCEval([k \in 1..m.b |-> DSum([p \in 1..n |-> DMul(Y[p][k], Y[p][k])])])
             tot == DSum([p \in 1..n |-> DDot(X[p], X[p])])
         IN  /\ \A p \in 1..n : \A q \in p..n : DNear(DDot(X[p], X[q]), DDot(Y[p], Y[q]), DShift(tot, -9))
             /\ \A k \in 1..m.b : \A l \in (k + 1)..m.b :
                  DNear(DSum([p \in 1..n |-> DMul(Y[p][k], Y[p][l])]), DZero, DShift(tot, -9)) /\ DLe(e[l], DAdd(e[k], DShift(tot, -9))))

(*************************** edge energy ***************************)
EdgeK == <<0, -2, 0, -2, 8, -2, 0, -2, 0>>
Edge(ws, o, w) ==
  IF o.h = Null THEN Refuse
  ELSE LET a == ws[o.h] IN
       IF a.ch # 1 \/ a.t # 1 THEN Refuse
       ELSE RelRet(w, LAMBDA v : v[2] # 999 /\
              LET Y == Axis(a.r, 1, 0) X == Axis(a.c, 1, 0) n == a.r * a.c
                  q == SumF(LAMBDA p : Sq(CorrAt(a, EdgeK, 3, 3, Y, X, p \div a.c, p % a.c, 0) \div 2), 0, n - 1) \* a quarter of it
              IN  DNear(DMul(DF(v), DI(9 * n)), DI(q), DAdd(DM(q, -12), DM(n, -6))))

AlgOps == {"optdft", "dft", "idft", "spectrum", "magnitude", "kmeans", "cem", "hu", "match", "draw", "normz", "equalise", "tension", "rotate", "pca", "edge"}
AlgEff(ws, o, w) ==
  CASE o.op = "optdft" -> OptDft(ws, o) [] o.op = "dft" -> Dft(ws, o, w) [] o.op = "idft" -> Idft(ws, o, w) [] o.op = "spectrum" -> Spectrum(ws, o, w)
    [] o.op = "magnitude" -> Magnitude(ws, o, w) [] o.op = "kmeans" -> KMeans(ws, o, w) [] o.op = "cem" -> Cem(ws, o, w) [] o.op = "hu" -> Hu(ws, o, w)
    [] o.op = "match" -> Match(ws, o, w) [] o.op = "draw" -> Draw(ws, o, w) [] o.op = "normz" -> Normz(ws, o, w) [] o.op = "equalise" -> Equalise(ws, o)
    [] o.op = "tension" -> Tension(ws, o, w) [] o.op = "rotate" -> Rotate(ws, o, w) [] o.op = "pca" -> Pca(ws, o, w) [] o.op = "edge" -> Edge(ws, o, w)
=============================================================================
