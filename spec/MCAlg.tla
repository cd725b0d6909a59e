--------------------------------- MODULE MCAlg ---------------------------------
(* Laws of the algorithm and highgui modules, checked exhaustively over small inputs (see MCProc for the state). *)
EXTENDS MCProc

Tiny == DM(1, -20)
Three(a, b, c) == [h \in {"a", "b", "c"} |-> IF h = "a" THEN a ELSE IF h = "b" THEN b ELSE c]
Four(a, b, c, d) == [h \in {"a", "b", "c", "d"} |-> IF h = "a" THEN a ELSE IF h = "b" THEN b ELSE IF h = "c" THEN c ELSE d]
CubeC(X, R, K) == TLCEval([i \in 0..(R - 1) |-> TLCEval([j \in 0..(K - 1) |-> <<DI(X[i * K + j + 1]), DZero>>])])
FIm(r, c, d) == SM(r, c, 4, 1, d)

(************************ C23 ************************)
\* backward after forward is N times the identity; energy is preserved up to N; a constant has only the zero frequency
L23 == Full => \A rc \in {<<1, N>>, <<N, 1>>} \cup (IF N % 2 = 0 THEN {<<2, N \div 2>>} ELSE {}) :
  LET R == rc[1] K == rc[2] X == CubeC(x, R, K) G == Fourier(X, R, K, -1) B == Fourier(G, R, K, 1) all == {<<i, j>> : i \in 0..(R - 1), j \in 0..(K - 1)} seq == SetToSeq(all) IN
  /\ \A ij \in all : DNear(B[ij[1]][ij[2]][1], DMul(DI(N), X[ij[1]][ij[2]][1]), Tiny) /\ DNear(B[ij[1]][ij[2]][2], DZero, Tiny)
  /\ DNear(DSum([k \in 1..N |-> Norm2(G[seq[k][1]][seq[k][2]])]), DMul(DI(N), DI(SumF(LAMBDA k : Sq(x[k]), 1, N))), Tiny)
  /\ DNear(G[0][0][1], DI(SumSeq(x)), Tiny)
  /\ (\A k \in 1..N : x[k] = x[1]) => \A ij \in all \ {<<0, 0>>} : DNear(Norm2(G[ij[1]][ij[2]]), DZero, Tiny)
\* on 2x2 images the scaled transform is exact in single precision: the specification takes it, and nothing far from it
Dft2(q) == <<q[1] + q[2] + q[3] + q[4], (q[1] - q[2]) + (q[3] - q[4]), (q[1] + q[2]) - (q[3] + q[4]), (q[1] - q[2]) - (q[3] - q[4])>>
L23b == (Full /\ N = 4) =>
  LET a == Im(2, 2, 1, [i \in 1..4 |-> Abs(x[i])]) f == TLCEval([i \in 1..4 |-> FEnc(Dft2(a.d)[i], -1)]) zero == Const(4, <<0, 0>>)
      ws == Three(a, FIm(2, 2, zero), FIm(2, 2, zero)) o == [op |-> "dft", fn |-> "gen", h |-> "a", g |-> "b", g2 |-> "c"]
      After(re, im) == Accepts(ws, o, "ok", NoRet, [ws EXCEPT !["b"].d = re, !["c"].d = im])
      wi == Three(Blank(a), FIm(2, 2, f), FIm(2, 2, zero)) oi == [op |-> "idft", fn |-> "gen", h |-> "b", h2 |-> "c", g |-> "a"]
  IN  /\ After(f, zero)
      /\ \A i \in 1..4 : ~After([f EXCEPT ![i] = FEnc(Dft2(a.d)[i] + 2, -1)], zero) /\ ~After(f, [zero EXCEPT ![i] = <<1, 0>>])
      /\ (f[2] # f[3] => ~After(<<f[1], f[3], f[2], f[4]>>, zero))
      /\ Takes(wi, oi, "a", a) /\ \A i \in 1..4 : ~Takes(wi, oi, "a", [a EXCEPT !.d[i] = (a.d[i] + 3) % 256])
RECURSIVE Strip(_, _)
Strip(n, p) == IF n % p = 0 THEN Strip(n \div p, p) ELSE n
Smooth(n) == n > 0 /\ Strip(Strip(Strip(n, 2), 3), 5) = 1
L23c == Full => LET n == x[1] m == BestSize(n) IN m >= n /\ Smooth(m) /\ \A k \in Max2(n, 1)..(m - 1) : ~Smooth(k)
L23d == \A n \in OddSizes : BestSize(n) = n /\ (n > 1 => BestSize(n - 1) \in {n - 1, n} /\ Smooth(n) /\ n % 2 = 1)

(************************ C26 ************************)
\* the iteration ends from every start, in accepted centres; one centre ends in the centroid
RECURSIVE Run(_, _, _, _, _)
Run(cs, K, m, fg, n) == IF n = 0 THEN <<>> ELSE LET q == Settle(cs, K, m, fg) IN IF q = cs THEN cs ELSE Run(q, K, m, fg, n - 1)
KOp(k, th) == [op |-> "kmeans", h |-> "a", kind |-> k, n |-> k, th |-> th, seed |-> 1]
L26 == (Full /\ N \in {6, 9}) => LET R == N \div 3 m == Im(R, 3, 1, x) fg == FgOf(m) ws == [h \in {"a"} |-> m] spots == {<<i, j>> : i \in 0..2, j \in 0..(R - 1)} IN
  /\ \A c \in spots : LET e == Run(<<c>>, 1, m, fg, 3) IN
       e # <<>> /\ Says(ws, KOp(1, 0), e)
       /\ (IF fg = {} THEN e = <<c>> ELSE Says(ws, KOp(1, 0), <<c>>) = (e = <<c>>))
  /\ \A c \in spots \X spots : LET e == Run(c, 2, m, fg, 30) IN e # <<>> /\ Says(ws, KOp(2, 0), e) /\ Says(ws, KOp(2, 0), c) = (Settle(c, 2, m, fg) = c)
  /\ \A c \in spots : Says(ws, KOp(1, 3), Run(<<c>>, 1, m, fg, 1)) \/ Run(<<c>>, 1, m, fg, 1) = <<>>

(************************ C27 ************************)
SqMat(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> DI(x[(i - 1) * n + j])])])
\* the adjugate, and the filter: unit gain on the target and least output energy among those
L27 == Full => LET n == IF N = 4 THEN 2 ELSE 3 IN (N \in {4, 9}) =>
  LET A == SqMat(n) B == Adj(A, n) d == Det(A, Ids(n), Ids(n)) IN
  \A i \in 1..n : \A j \in 1..n : DDot(A[i], TLCEval([k \in 1..n |-> B[k][j]])) = IF i = j THEN d ELSE DZero
L27b == (Full /\ N = 6) =>
  LET X == <<<<x[1], x[2]>>, <<x[3], x[4]>>, <<x[5], x[6]>>>>
      R(i, j) == X[1][i] * X[1][j] + X[2][i] * X[2][j] + X[3][i] * X[3][j]
      A == <<<<DI(R(1, 1)), DI(R(1, 2))>>, <<DI(R(2, 1)), DI(R(2, 2))>>>> IN
  (R(1, 1) * R(2, 2) # R(1, 2) * R(1, 2)) =>
    \A d \in {<<1, 0>>, <<1, 1>>, <<2, -1>>} :
      LET B == Adj(A, 2) D == <<DI(d[1]), DI(d[2])>> f == <<DDot(B[1], D), DDot(B[2], D)>> q == DDot(D, f)
          E(w) == DSum([p \in 1..3 |-> LET y == DAdd(DMul(w[1], DI(X[p][1])), DMul(w[2], DI(X[p][2]))) IN DMul(y, y)])
      IN  DLe(DM(1, -10), q) /\ \A t \in {-2, -1, 1, 3} : DLe(E(f), E(<<DSub(f[1], DI(t * d[2])), DAdd(f[2], DI(t * d[1]))>>))

(************************ C28 ************************)
\* moving and turning leave the invariants, mirroring turns the sign of the last; a shape matches itself, and matching is symmetric
HuSame(a, b) == LET m == Moments(a) n == Moments(b) IN m.S = n.S /\ HuOf(m.M, DSub) = HuOf(n.M, DSub)
L28 == (Full /\ N = 6) => LET a == Im(2, 3, 1, x)
    moved == Im(4, 5, 1, [p \in 1..20 |-> LET i == (p - 1) \div 5 j == (p - 1) % 5 IN IF i \in 1..2 /\ j \in 2..4 THEN x[(i - 1) * 3 + j - 1] ELSE 0])
    turned == Im(3, 2, 1, [p \in 1..6 |-> LET i == (p - 1) \div 2 j == (p - 1) % 2 IN x[(1 - j) * 3 + i + 1]])
    mirror == Im(2, 3, 1, <<x[3], x[2], x[1], x[6], x[5], x[4]>>)
    ha == HuOf(Moments(a).M, DSub) hm == HuOf(Moments(mirror).M, DSub)
    ws == Two(a, moved) ws2 == Two(moved, a) one == <<1, 0, -27>> o == [op |-> "match", h |-> "a", h2 |-> "b"]
  IN  /\ HuSame(a, moved) /\ HuSame(a, turned)
      /\ \A i \in 1..6 : ha[i] = hm[i]
      /\ DNeg(ha[7]) = hm[7]
      /\ Says(ws, o, one) /\ Says(ws2, o, one) /\ Says(Two(a, a), o, one)
      /\ \A v \in {one, <<1, 0, -28>>, <<0, 0, 0>>} : Says(Two(a, Im(1, 3, 1, <<5, 0, 9>>)), o, v) = Says(Two(Im(1, 3, 1, <<5, 0, 9>>), a), o, v)

(************************ C29 ************************)
\* a line of the five by five board from (x1,x2) to (x3,x4): an accepted picture contains both ends, is 8-connected and no
\* thicker than it must be; reversing the ends accepts the same pictures
Board == Im(5, 5, 1, Const(25, 0))
LOp(p, sz) == [op |-> "draw", fn |-> "line", h |-> "a", g |-> "b", pts |-> p, col |-> <<9, 8, 7>>, size |-> sz]
FirstSpot(s) == CHOOSE p \in s : \A q \in s : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Pic(spots) == [Board EXCEPT !.d = [p \in 1..25 |-> IF \E k \in 1..Len(spots) : FirstSpot(spots[k]) = <<(p - 1) % 5, (p - 1) \div 5>> THEN 9 ELSE 0]]
L29 == (Full /\ N = 4) => LET o == LOp(x, 1) back == LOp(<<x[3], x[4], x[1], x[2]>>, 1) spots == LineSpots(o) ws == Two(Board, Blank(Board)) n == Len(spots) IN
  /\ spots[1] = {<<x[1], x[2]>>} /\ spots[n] = {<<x[3], x[4]>>} /\ n = Max2(Abs(x[3] - x[1]), Abs(x[4] - x[2])) + 1
  /\ \A k \in 1..(n - 1) : \A s \in spots[k] : \E t \in spots[k + 1] : Max2(Abs(s[1] - t[1]), Abs(s[2] - t[2])) = 1
  /\ \A k \in 1..n : \A s \in spots[k] : n = 1 \/ (2 * Abs(((s[1] - x[1]) * (n - 1)) - ((k - 1) * (x[3] - x[1]))) <= n - 1 /\ 2 * Abs(((s[2] - x[2]) * (n - 1)) - ((k - 1) * (x[4] - x[2]))) <= n - 1)
  /\ Takes(ws, o, "b", Pic(spots)) /\ Takes(ws, back, "b", Pic(spots))
  /\ \A p \in 1..25 : (Pic(spots).d[p] = 9 /\ Takes(ws, o, "b", [Pic(spots) EXCEPT !.d[p] = 0])) => \E k \in 1..n : Cardinality(spots[k]) > 1
  /\ ~Takes(ws, o, "b", [Pic(spots) EXCEPT !.d = Const(25, 9)]) /\ (~Takes(ws, o, "b", Board) \/ \A k \in 1..n : \E s \in spots[k] : s[1] \notin 0..4 \/ s[2] \notin 0..4)

(************************ C30 ************************)
L30 == Full => LET q == TLCEval([i \in 1..N |-> DI(x[i])]) tol == DM(1, -30) mm == DMinMax(q)
    nz == \E i \in 1..N : x[i] # 0 al == DI(100) be == DI(20) v(k) == Normed(k, q, al, be).v
    a == Im(1, N, 1, [i \in 1..N |-> Abs(x[i])]) e == Res(Two(a, Blank(a)), [op |-> "equalise", h |-> "a", g |-> "b"], "b").d IN
  /\ nz => /\ DNear(SumAbs(v(2)), al, tol) /\ DNear(DDot(v(4), v(4)), DMul(al, al), DM(1, -16)) /\ DNear(NormScale(1, v(1)), al, tol)
  /\ ~nz => \A k \in {1, 2, 4} : \A i \in 1..N : v(k)[i] = DZero
  /\ LET w == v(32) z == DMinMax(w) IN
     /\ DNear(z[1], be, tol)
     /\ (mm[1] # mm[2] => DNear(z[2], al, tol))
     /\ \A i \in 1..N : \A j \in 1..N : x[i] <= x[j] => DLe(w[i], w[j])
     /\ Normed(32, q, be, al).v = w
  /\ \A i \in 1..N : \A j \in 1..N : (a.d[i] <= a.d[j]) = (e[i] <= e[j]) \/ N > 255
  /\ MaxSeq(e) = 255

(************************ C35 ************************)
\* quarter turns are exact: one cell per source pixel, the picture transposed and mirrored; a full turn is no turn
Quad(h, t) == CHOOSE q \in {<<0, 0, h.s, h.l>>, <<1, 0, h.l, h.s>>, <<2, 0, h.s, h.l>>, <<3, 0, h.l, h.s>>} : q[1] = t
Turned(h, t) == \* counter-clockwise t quarter turns of the cube (bip)
  LET W == IF t % 2 = 0 THEN h.s ELSE h.l H == IF t % 2 = 0 THEN h.l ELSE h.s
      At(u, v) == CASE t = 0 -> <<u, v>> [] t = 1 -> <<v, (h.s - 1) - u>> [] t = 2 -> <<(h.l - 1) - u, (h.s - 1) - v>> [] t = 3 -> <<(h.l - 1) - v, u>> IN
  [h EXCEPT !.s = W, !.l = H, !.il = "bip", !.d = [p \in 1..Len(h.d) |-> LET k == (p - 1) % h.b uv == (p - 1) \div h.b c == At(uv \div W, uv % W) IN h.d[Pos(h.il, h.s, h.l, h.b, c[1], c[2], k) + 1]]]
L35 == (Full /\ N \in {6, 3}) => \A il \in Interleaves : LET h == HM(N \div 3, 3, 1, 1, il, <<<<0, 0>>>>, x) ws == [g \in {"a"} |-> h]
     Rot(a, g) == Accepts(ws, [op |-> "rotate", h |-> "a", g |-> "b", angle |-> a], "ok", [null |-> 0], ApplyUpd(ws, << <<"b", g>> >>, {})) IN
  \A t \in 0..3 : \E s \in {t, (4 - t) % 4} :
    /\ Rot(<<90 * t, 0>>, Turned(h, s)) /\ Rot(<<90 * t + 360, 0>>, Turned(h, s)) /\ Rot(<<(90 * t - 360) * 128, -7>>, Turned(h, s))
    /\ \A z \in 0..3 : Rot(<<90 * t, 0>>, Turned(h, z)) = (Turned(h, z) = Turned(h, s))

(************************ C36 ************************)
\* a picture whose two bands are centred, uncorrelated and in order is its own principal components (up to signs)
L36 == (Full /\ N = 2) => LET u == x[1] v == x[2]
    d == <<F(u), F(v), F(u), F(-v), F(-u), F(v), F(-u), F(-v)>> h == HM(4, 1, 2, 4, "bip", <<<<0, 0>>, <<0, 0>>>>, d)
    ws == Two(h, [h EXCEPT !.d = Const(8, <<0, 0>>)]) o == [op |-> "pca", h |-> "a", g |-> "b", it |-> 50]
    off == [h EXCEPT !.d = [p \in 1..8 |-> IF p % 2 = 1 THEN FEnc(h.d[p][1] * Pow2(h.d[p][2]) + 7, 0) ELSE h.d[p]]] IN
  (Abs(u) > Abs(v) /\ v # 0) =>
    /\ Takes(ws, o, "b", h) /\ Takes(ws, o, "b", [h EXCEPT !.d = [p \in 1..8 |-> IF p % 2 = 1 THEN <<-d[p][1], d[p][2]>> ELSE d[p]]])
    /\ ~Takes(ws, o, "b", [h EXCEPT !.d = [p \in 1..8 |-> IF p % 2 = 1 THEN d[p + 1] ELSE d[p - 1]]])
    /\ ~Takes(ws, o, "b", off) /\ Takes([ws EXCEPT !["a"] = off], o, "b", h)

(************************ C37 ************************)
L37 == (Full /\ N \in {4, 6, 9}) => LET R == IF N = 9 THEN 3 ELSE 2 ws == [h \in {"a"} |-> Im(R, N \div R, 1, x)] o == [op |-> "edge", h |-> "a"] IN
  /\ (\A i \in 1..N : x[i] = x[1]) => Says(ws, o, <<0, 0>>) /\ ~Says(ws, o, <<1, 0>>)
  /\ (\E i \in 1..N : x[i] # x[1]) => ~Says(ws, o, <<0, 0>>) \/ \A i \in 1..N : Abs(x[i] - x[1]) <= 1
=============================================================================
