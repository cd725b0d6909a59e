"""Writes spec/Tables.tla: constants of the exact arithmetic that TLC would otherwise work out again at every use.
Every entry is checked against its definition by MCNum (TablesRight)."""
import os
from fractions import Fraction as Q
from decimal import Decimal, getcontext
getcontext().prec = 60
PI = Decimal("3.14159265358979323846264338327950288419716939937510582097494459")
def cos(x):
    t = s = Decimal(1); k = 0
    while abs(t) > Decimal(10) ** -50: k += 2; t = -t * x * x / (k * (k - 1)); s += t
    return s
def lit(q, n):
    """q to n base-4096 digits (towards zero) as a number of module Num"""
    if q == 0: return "<<0, <<>>, 0>>"
    s = 1 if q > 0 else -1; q = abs(q); x = 0
    while q >= Q(4096) ** (x + 1): x += 1
    while q < Q(4096) ** x: x -= 1
    v = int(q / Q(4096) ** (x - n + 1)); d = []; e = x - n + 1
    while v: d.append(v % 4096); v //= 4096
    while d[0] == 0: d.pop(0); e += 1
    return "<<%d, <<%s>>, %d>>" % (s, ", ".join(map(str, d)), e)
def snap(x): return Q(0) if abs(x) < Decimal(10) ** -40 else Q(1) if abs(x - 1) < Decimal(10) ** -40 else Q(-1) if abs(x + 1) < Decimal(10) ** -40 else Q(1, 2) if abs(x - Decimal(".5")) < Decimal(10) ** -40 else Q(-1, 2) if abs(x + Decimal(".5")) < Decimal(10) ** -40 else Q(x)
MAXN = 32
def tab(f): return "<<\n" + ",\n".join("  <<" + ", ".join(lit(snap(f(k, n)), 4) for k in range(n)) + ">>" for n in range(1, MAXN + 1)) + ">>"
out = """-------------------------------- MODULE Tables --------------------------------
(* Written by tools/mktables.py; MCNum checks every entry (TablesRight). *)
EXTENDS Integers
MaxN == %d
\\* cosine and sine of k/n turns: CosTab[n][k + 1]
CosTab == %s
SinTab == %s
Recips == {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 30, 56, 90, 132, 182, 240}
\\* reciprocals (gaps are zero)
DRcp == <<
%s>>
DPi == %s
DLn2 == %s
=============================================================================
""" % (MAXN, tab(lambda k, n: cos(2 * PI * k / n)), tab(lambda k, n: cos(2 * PI * k / n - PI / 2)),
       ",\n".join("  " + lit(Q(1, k) if k in {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 30, 56, 90, 132, 182, 240} else 0, 8) for k in range(1, 241)), lit(Q(PI), 7), lit(Q(Decimal(2).ln()), 7))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec/Tables.tla"), "w").write(out)
