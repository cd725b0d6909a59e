-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic on dyadic rationals (every float and double is one): a number is <<s, d, x>>, the sign, the
   base-4096 digits (least significant first) and the exponent, in digits, of d[1].  TLC's own integers have 32 bits. *)
EXTENDS Base, Tables
NB == 4096
DZero == <<0, <<>>, 0>>
Pow2(k) == 2 ^ k
RECURSIVE Top(_, _), Low(_, _)
Top(d, n) == IF n = 0 THEN 0 ELSE IF d[n] # 0 THEN n ELSE Top(d, n - 1)
Low(d, i) == IF d[i] # 0 THEN i ELSE Low(d, i + 1)
DNorm(s, d, x) == LET n == Top(d, Len(d)) IN
                  IF n = 0 THEN DZero ELSE LET k == Low(d, 1) IN <<s, SubSeq(d, k, n), x + k - 1>>
\* propagate carries of a sequence of non-negative digit sums
RECURSIVE Carry(_, _, _, _)
Carry(t, i, c, out) ==
  IF i > Len(t) THEN IF c = 0 THEN out ELSE Carry(t, i + 1, c \div NB, Append(out, c % NB))
  ELSE LET v == t[i] + c IN Carry(t, i + 1, v \div NB, Append(out, v % NB))
\* m * 2^e, |m| < 2^31
DM(m, e) == IF m = 0 THEN DZero
            ELSE LET x == e \div 12  k == Pow2(e % 12)  a == Abs(m)
                 IN  DNorm(IF m < 0 THEN -1 ELSE 1, Carry(<<(a % NB) * k, ((a \div NB) % NB) * k, (a \div 16777216) * k>>, 1, 0, <<>>), x)
DI(i) == IF i = -2147483647 - 1 THEN <<-1, <<128>>, 2>> ELSE DM(i, 0)
DNeg(a) == <<-a[1], a[2], a[3]>>
DAbs(a) == <<Abs(a[1]), a[2], a[3]>>
Dg(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE 0
\* compare magnitudes: -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, p) == \* from digit position p (absolute) downwards
  IF p < a[3] /\ p < b[3] THEN 0
  ELSE LET u == Dg(a[2], p - a[3] + 1)  v == Dg(b[2], p - b[3] + 1) IN IF u > v THEN 1 ELSE IF u < v THEN -1 ELSE CmpFrom(a, b, p - 1)
DCmpMag(a, b) == LET ta == a[3] + Len(a[2])  tb == b[3] + Len(b[2]) IN
                 IF a[1] = 0 \/ b[1] = 0 THEN Abs(a[1]) - Abs(b[1])
                 ELSE IF ta > tb THEN 1 ELSE IF ta < tb THEN -1 ELSE CmpFrom(a, b, ta - 1)
\* borrow-propagating subtraction is carry with floor division, which TLA+ integers do
DAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET x == Min2(a[3], b[3])  oa == a[3] - x  ob == b[3] - x
           n == Max2(Len(a[2]) + oa, Len(b[2]) + ob)
       IN  IF a[1] = b[1] THEN DNorm(a[1], Carry([i \in 1..n |-> Dg(a[2], i - oa) + Dg(b[2], i - ob)], 1, 0, <<>>), x)
           ELSE LET c == DCmpMag(a, b) IN
                IF c = 0 THEN DZero
                ELSE IF c > 0 THEN DNorm(a[1], Carry([i \in 1..n |-> Dg(a[2], i - oa) - Dg(b[2], i - ob)], 1, 0, <<>>), x)
                ELSE DNorm(b[1], Carry([i \in 1..n |-> Dg(b[2], i - ob) - Dg(a[2], i - oa)], 1, 0, <<>>), x)
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN DZero
  ELSE LET p == a[2]  q == b[2]
       IN  DNorm(a[1] * b[1], Carry([k \in 1..(Len(p) + Len(q) - 1) |-> SumF(LAMBDA i : p[i] * q[k + 1 - i], Max2(1, k + 1 - Len(q)), Min2(Len(p), k))], 1, 0, <<>>), a[3] + b[3])
DCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] > b[1] THEN 1 ELSE -1) ELSE a[1] * DCmpMag(a, b)
DLe(a, b) == DCmp(a, b) <= 0
DSum(q) == FoldLeft(DAdd, DZero, q)
DShift(a, e) == DMul(a, DM(1, e))
D1 == DI(1)
\* keep the n leading digits (towards zero)
DTrunc(a, n) == IF Len(a[2]) <= n THEN a ELSE DNorm(a[1], SubSeq(a[2], Len(a[2]) - n + 1, Len(a[2])), a[3] + Len(a[2]) - n)
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
\* a = b to a relative 2^-k (of the larger scale given)
DClose(a, b, scale, k) == DNear(a, b, DShift(DAbs(scale), -k))
RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN D1 ELSE DMul(a, DPow(a, n - 1))
DDot(p, q) == FoldLeft(LAMBDA acc, i : DAdd(acc, DMul(p[i], q[i])), DZero, [i \in 1..Len(p) |-> i])
\* quotient of positive numbers to n digits; b is scaled so that its leading digit is at least 2048
RECURSIVE DigitUp(_, _, _), DivFrom(_, _, _, _), LeadShift(_, _)
DigitUp(r, b, v) == IF DLe(<<1, b[2], b[3]>>, r) THEN DigitUp(DSub(r, b), b, v + 1) ELSE <<v, r>>
LeadShift(d, k) == IF d >= 2048 THEN k ELSE LeadShift(2 * d, k + 1)
DivFrom(r, b, x, n) ==
  IF n = 0 \/ r[1] = 0 THEN DZero
  ELSE LET p == b[3] + Len(b[2]) - 1 + x \* position of the leading digit of b * 4096^x
           rl == Dg(r[2], p + 1 - r[3] + 1) * NB + Dg(r[2], p - r[3] + 1)
           est == rl \div (b[2][Len(b[2])] + 1)
           bx == <<1, b[2], b[3] + x>>
           dv == DigitUp(IF est = 0 THEN r ELSE DSub(r, DMul(bx, <<1, <<est>>, 0>>)), bx, est)
       IN  DAdd(IF dv[1] = 0 THEN DZero ELSE <<1, <<dv[1]>>, x>>, DivFrom(dv[2], b, x - 1, n - 1))
DDivPos(a, b, n) == LET k == LeadShift(b[2][Len(b[2])], 0) a2 == DShift(a, k) b2 == DShift(b, k) IN
                    DivFrom(a2, b2, (a2[3] + Len(a2[2])) - (b2[3] + Len(b2[2])), n + 1)
DDiv(a, b, n) == IF a[1] = 0 THEN DZero ELSE LET q == DDivPos(DAbs(a), DAbs(b), n) IN IF a[1] = b[1] THEN q ELSE DNeg(q)
\* e^a for |a| <= 1024, relative error below 2^-36
RECURSIVE ExpHorner(_, _), SqrN(_, _)
ExpHorner(y, k) == IF k = 11 THEN D1 ELSE DTrunc(DAdd(D1, DMul(DTrunc(DMul(y, DRcp[k]), 5), ExpHorner(y, k + 1))), 5)
SqrN(a, n) == IF n = 0 THEN a ELSE SqrN(DTrunc(DMul(a, a), 5), n - 1)
ExpSmall(y) == DTrunc(DAdd(D1, DMul(y, ExpHorner(y, 2))), 5)
DExp(a) == LET n == IF DLe(DAbs(a), D1) THEN 2 ELSE IF DLe(DAbs(a), DI(16)) THEN 6 ELSE 12 IN SqrN(ExpSmall(DTrunc(DShift(a, -n), 6)), n)
\* base-2 logarithm of a positive integer below 2^31, absolute error below 2^-23: bit by bit, squaring
RECURSIVE Log2Bits(_, _, _), TopBit(_)
Log2Bits(m, k, n) == IF k > n THEN DZero
                     ELSE LET q == DTrunc(DMul(m, m), 5) b == DLe(DI(2), q) IN
                          DAdd(IF b THEN DM(1, -k) ELSE DZero, Log2Bits(IF b THEN DShift(q, -1) ELSE q, k + 1, n))
TopBit(x) == IF x < 2 THEN 0 ELSE 1 + TopBit(x \div 2)
DLog2(x) == LET e == TopBit(x) IN DAdd(DI(e), IF x = Pow2(e) THEN DZero ELSE Log2Bits(DM(x, -e), 1, 24))
\* cosine of 0 <= a <= 3.3, absolute error below 2^-40
RECURSIVE CosHorner(_, _)
CosHorner(y2, q) == IF Len(q) = 0 THEN D1 ELSE DTrunc(DSub(D1, DMul(DMul(y2, DRcp[q[1]]), CosHorner(y2, Tail(q)))), 7)
CosDouble(c) == DSub(DShift(DMul(c, c), 1), D1)
DCos(a) == LET y == DShift(a, -2) IN DTrunc(CosDouble(DTrunc(CosDouble(CosHorner(DTrunc(DMul(y, y), 7), <<2, 12, 30, 56, 90, 132, 182, 240>>)), 7)), 7)

\* square root of a non-negative number to about n digits (Newton from a power of 4096 above it)
RECURSIVE Newton(_, _, _, _)
Newton(a, x, k, n) == IF k = 0 THEN x ELSE Newton(a, DTrunc(DShift(DAdd(x, DDiv(a, x, n)), -1), n), k - 1, n)
SqrtStart(a) == LET t == a[3] + Len(a[2]) IN IF a[2][Len(a[2])] < 64 THEN DM(1, 6 * t - 3) ELSE DM(1, 6 * t) \* a < 4096^t
DSqrt(a, n) == IF a[1] = 0 THEN DZero ELSE Newton(a, SqrtStart(a), 9, n)
\* floor of a * 2^k for numbers below 2^31
RECURSIVE DigVal(_, _, _)
DigVal(d, x, i) == IF i = 0 THEN 0 ELSE (IF x + i - 1 >= 0 THEN d[i] * (IF x + i - 1 = 0 THEN 1 ELSE IF x + i - 1 = 1 THEN 4096 ELSE 16777216) ELSE 0) + DigVal(d, x, i - 1)
HasFrac(a) == a[3] < 0 /\ \E i \in 1..Min2(Len(a[2]), -a[3]) : a[2][i] # 0
DFix(a, k) == LET b == DShift(a, k) IN
              IF b[1] = 0 THEN 0 ELSE LET q == DigVal(b[2], b[3], Len(b[2])) IN IF b[1] > 0 THEN q ELSE IF HasFrac(b) THEN -q - 1 ELSE -q
\* the cosine and sine of 2 pi k / n (any k)
CosTurn(k, n) == LET m == k % n q == Min2(m, n - m) IN
                 IF q = 0 THEN D1 ELSE IF 4 * q = n THEN DZero ELSE IF 2 * q = n THEN DI(-1) ELSE DCos(DDiv(DShift(DMul(DPi, DI(q)), 1), DI(n), 6))
SinTurn(k, n) == CosTurn(4 * k - n, 4 * n)

(***************************** elements as numbers *****************************)
FinE(t, v) == CASE t = 4 -> v[2] # 999 [] t = 5 -> v[3] # 999 [] OTHER -> TRUE
DF(v) == DM(v[1], v[2])
DD(v) == DAdd(DMul(DI(v[1]), DM(1, v[3] + 27)), DM(v[2], v[3]))
DLimbs(v) == DAdd(DAdd(DMul(DI(v[1]), DM(1, 48)), DMul(DI(v[2]), DM(1, 32))), DAdd(DMul(DI(v[3]), DM(1, 16)), DI(v[4])))
DV(t, v) ==
  CASE t \in {1, 2, 3, 12} -> DI(v) [] t = 4 -> DF(v) [] t = 5 -> DD(v)
    [] t = 13 -> DAdd(DMul(DI(v[1]), DM(1, 16)), DI(v[2]))
    [] t = 14 -> IF v[1] >= 32768 THEN DSub(DLimbs(v), DM(1, 64)) ELSE DLimbs(v)
    [] t = 15 -> DLimbs(v)
FinAll(t, d) == \A i \in 1..Len(d) : FinE(t, d[i])
\* canonical float encoding of s * 2^e
RECURSIVE FEnc(_, _)
FEnc(s, e) == IF s = 0 THEN <<0, 0>> ELSE IF s % 2 = 0 THEN FEnc(s \div 2, e + 1) ELSE <<s, e>>
\* equal as numbers (the sign of a zero does not matter)
FEq(a, b) == a = b \/ (a[1] = 0 /\ b[1] = 0 /\ a[2] # 999 /\ b[2] # 999)
FSeqEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
\* s * 2^e (e <= 0) rounded to nearest, ties to even
RoundHE(s, e) == IF e >= 0 THEN s * Pow2(e)
                 ELSE LET k == Pow2(-e) q == s \div k r == s - q * k IN
                      IF 2 * r > k \/ (2 * r = k /\ q % 2 = 1) THEN q + 1 ELSE q
\* float v rounded and limited to lo..hi (|lo|,|hi| < 2^31)
FToInt(v, lo, hi) ==
  IF v[2] = 999 THEN IF v[1] > 0 THEN hi ELSE lo
  ELSE IF v[1] = 0 \/ v[2] < -25 THEN 0 + Clamp(0, lo, hi)
  ELSE IF v[2] > 30 THEN IF v[1] > 0 THEN hi ELSE lo
  ELSE IF v[2] >= 0 THEN IF Abs(v[1]) > 2147483647 \div Pow2(v[2]) THEN (IF v[1] > 0 THEN hi ELSE lo) ELSE Clamp(v[1] * Pow2(v[2]), lo, hi)
  ELSE Clamp(RoundHE(v[1], v[2]), lo, hi)
\* small dyadic sequences as integers over a common power of two
MinExp(d) == LET nz == {i \in 1..Len(d) : d[i][1] # 0} IN IF nz = {} THEN 0 ELSE LET i == CHOOSE i \in nz : \A j \in nz : d[i][2] <= d[j][2] IN d[i][2]
DyInts(d) == LET e == MinExp(d) IN [v |-> TLCEval([i \in 1..Len(d) |-> IF d[i][1] = 0 THEN 0 ELSE d[i][1] * Pow2(d[i][2] - e)]), e |-> e]
=============================================================================
