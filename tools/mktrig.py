"""Writes spec/Trig.tla: a table of arctangents for integer geometry."""
import math, os
N = 2048
rows = [round(math.atan(k / N) * 10000) for k in range(N + 1)]
body = ',\n  '.join(', '.join(str(x) for x in rows[k:k + 20]) for k in range(0, N + 1, 20))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'Trig.tla'), 'w').write('''-------------------------------- MODULE Trig --------------------------------
(* Integer geometry.  Angles are in 1/10000 radian.  (generated: tools/mktrig.py) *)
EXTENDS Integers, Sequences

Turn == 62832
Pi == 31416
HalfPi == 15708

\\* AtanTable[k + 1] = arctan(k / %d)
AtanTable == <<
  %s >>

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y

\\* arctan(a / b) for 0 <= a <= b, b > 0  (linear between the table's entries)
Atan(a, b) ==
  LET k == (a * %d) \\div b
      r == (a * %d) %% b
      lo == AtanTable[k + 1]
  IN IF k = %d THEN lo ELSE lo + ((AtanTable[k + 2] - lo) * r + b \\div 2) \\div b

\\* Direction of the vector (x, y), in [0, Turn); 0 for the zero vector
AngleOf(x, y) ==
  LET a == Abs(x)  b == Abs(y)
      first == IF b <= a THEN Atan(b, a) ELSE HalfPi - Atan(a, b)     \\* in the first quadrant
      ang == IF x >= 0 THEN (IF y >= 0 THEN first ELSE Turn - first)
             ELSE (IF y >= 0 THEN Pi - first ELSE Pi + first)
  IN IF a = 0 /\\ b = 0 THEN 0 ELSE ang %% Turn

Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Dot(p, q) == p[1] * q[1] + p[2] * q[2]
Norm2(p) == Dot(p, p)
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>

\\* Integer square root (rounded down), of numbers below 2^31
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, x) == LET y == (x + n \\div x) \\div 2 IN IF y >= x THEN x ELSE SqrtFrom(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE SqrtFrom(n, IF n < 65536 THEN 256 ELSE 46341)

(* The point of the segment a-b closest to the origin (to within 1/1024 of    *)
(* the segment's length).                                                     *)
Closest(a, b) ==
  LET d == Minus(b, a)
      len2 == Norm2(d)
      num == -Dot(a, d)
  IN IF len2 = 0 \\/ num <= 0 THEN a
     ELSE IF num >= len2 THEN b
     ELSE LET s == IF len2 >= 2000000 THEN num \\div (len2 \\div 1024) ELSE (num * 1024) \\div len2
              t == MinI(s, 1024)
          IN << a[1] + (d[1] * t) \\div 1024, a[2] + (d[2] * t) \\div 1024 >>
=============================================================================
''' % (N, body, N, N, N))
