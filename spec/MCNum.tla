-------------------------------- MODULE MCNum --------------------------------
(* Laws of the arithmetic the specification computes with, over a grid of operands. *)
EXTENDS Num
CONSTANT N
VARIABLES a, b
Init == a \in -N..N /\ b = -N
Next == b < N /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
\* operands spread over many magnitudes
X(i) == DM(i * 74933 + 1, ((i * 7) % 61) - 30)
Ring == /\ DAdd(X(a), X(b)) = DAdd(X(b), X(a)) /\ DMul(X(a), X(b)) = DMul(X(b), X(a))
        /\ DSub(DAdd(X(a), X(b)), X(b)) = X(a)
        /\ DMul(X(a), DAdd(X(b), X(a + b))) = DAdd(DMul(X(a), X(b)), DMul(X(a), X(a + b)))
        /\ DMul(DI(a * 1000), DI(b * 1000)) = DMul(DI(a * b), DI(1000000)) /\ DAdd(DI(a), DI(b)) = DI(a + b)
        /\ (DLe(X(a), X(b)) \/ DLe(X(b), X(a))) /\ (DCmp(DI(a), DI(b)) = IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
        /\ DShift(DShift(X(a), b), -b) = X(a)
Quot == b # 0 => DClose(DMul(DDiv(X(a), X(b), 5), X(b)), X(a), X(a), 48)
Exps == LET p == DM(a * 3, -2) q == DM(b * 5, -3) e == DExp(DAdd(p, q)) IN DClose(DMul(DExp(p), DExp(q)), e, e, 36)
Coss == LET p == DM(Abs(a), -4) IN Abs(a) <= 26 => LET c == DCos(p) c2 == DCos(DShift(p, 1)) IN DNear(c2, DSub(DShift(DMul(c, c), 1), D1), DM(1, -38))
Known == /\ DClose(DExp(DMul(DI(Abs(a)), DLn2)), DM(1, Abs(a)), DM(1, Abs(a)), 36)
         /\ DNear(DCos(DM(3294199, -20)), DI(-1), DM(1, -38))
         /\ DV(14, <<65535, 65535, 65535, 65535>>) = DI(-1) /\ DV(5, <<a * 1000, Abs(b), -20>>) = DAdd(DMul(DI(a * 1000), DM(1, 7)), DM(Abs(b), -20))
Rounds == /\ RoundHE(a, -1) = (IF a % 2 = 0 THEN a \div 2 ELSE IF ((a - 1) \div 2) % 2 = 0 THEN (a - 1) \div 2 ELSE (a + 1) \div 2)
          /\ 2 * Abs(RoundHE(a * 37 + b, -3) * 8 - (a * 37 + b)) <= 8
          /\ FToInt(FEnc(a * 37 + b, -3), -100, 100) = Clamp(RoundHE(a * 37 + b, -3), -100, 100)
          /\ DF(FEnc(a, b)) = DM(a, b)
          /\ FToInt(<<1, 31>>, -2147483647 - 1, 2147483647) = 2147483647 /\ FToInt(<<16777215, 7>>, -2147483647 - 1, 2147483647) = 2147483520
TablesRight ==
  /\ LET n == a + 8 k == b + 9 IN
     (n \in 1..16 /\ k \in 0..(n - 1)) => DNear(CosTab[n][k + 1], CosTurn(k, n), DM(1, -34)) /\ DNear(SinTab[n][k + 1], SinTurn(k, n), DM(1, -34))
  /\ LET k == ((a + 9) * 19) + b + 10 IN k \in Recips => DNear(DMul(DRcp[k], DI(k)), D1, DM(1, -80))
  /\ DNear(DSub(DExp(DLn2), DI(2)), DZero, DM(1, -36)) /\ DNear(DCos(DPi), DI(-1), DM(1, -38)) /\ DNear(DCos(DShift(DPi, -1)), DZero, DM(1, -38))
\* the longer transforms (checked by MC_NumWide)
TablesWide ==
  \A z \in {0, 361} : LET i == ((a + 9) * 19) + b + 9 + z  n == (i \div 32) + 17  k == i % 32 IN
     (n \in 17..MaxN /\ k \in 0..(n - 1)) => DNear(CosTab[n][k + 1], CosTurn(k, n), DM(1, -34)) /\ DNear(SinTab[n][k + 1], SinTurn(k, n), DM(1, -34))
Roots == LET x == DAbs(X(a)) r == DSqrt(x, 5) IN /\ DClose(DMul(r, r), x, x, 36) /\ DClose(DSqrt(DMul(x, x), 5), x, x, 36)
Floors == DFix(DM(a * 37 + b, -3), 1) = (a * 37 + b) \div 4 /\ DFix(DI(a * 100000), 4) = a * 1600000 /\ DFix(DAdd(DI(a), DM(1, -70)), 0) = a /\ DFix(DSub(DI(a), DM(1, -70)), 0) = a - 1
Logs == LET p == Abs(a) * 37 + 1 q == Abs(b) * 11 + 1 IN /\ DNear(DLog2(p * q), DAdd(DLog2(p), DLog2(q)), DM(1, -22)) /\ DLog2(Pow2(Abs(a))) = DI(Abs(a)) /\ DNear(DExp(DMul(DLog2(p), DLn2)), DI(p), DM(p, -22))
Turns == b \in {-5, 0, 4} => LET c == CosTurn(a, 19) s == SinTurn(a, 19) IN DNear(DAdd(DMul(c, c), DMul(s, s)), D1, DM(1, -36)) /\ DNear(DSub(DMul(CosTurn(a, 19), CosTurn(b, 19)), DMul(SinTurn(a, 19), SinTurn(b, 19))), CosTurn(a + b, 19), DM(1, -36))
=============================================================================
