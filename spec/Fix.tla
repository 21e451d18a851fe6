--------------------------------- MODULE Fix ---------------------------------
(* Fixed point numbers with 22 fraction bits, 32-bit safe for |x| < 256, and   *)
(* multivectors, exponentials and norms over them.                            *)
EXTENDS Klein
HB == 2048                         \* 2^11
ONE == 4194304                     \* 2^22
\* rounded product, error below 1.5 units
FMul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE LET a1 == a \div HB   a0 == a % HB
           b1 == b \div HB   b0 == b % HB
       IN a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div HB + 1024) \div HB
\* n / d in fixed point for small integers |n| < 2^9, rounded
RECURSIVE LongDiv(_, _, _)
LongDiv(n, d, k) == IF k = 0 THEN n \div d
                    ELSE LET q == n \div d  r == n % d
                         IN q * 2^k + LongDiv(r * 2, d, k - 1)
\* digits: value = sum; computed by repeated doubling of the remainder
RECURSIVE DivBits(_, _, _, _)
DivBits(r, d, acc, k) == IF k = 0 THEN acc
                         ELSE LET r2 == 2 * r
                              IN IF r2 >= d THEN DivBits(r2 - d, d, 2 * acc + 1, k - 1)
                                 ELSE DivBits(r2, d, 2 * acc, k - 1)
FRat(n, d) == LET s == IF n < 0 THEN -1 ELSE 1
                  m == Abs(n)
              IN s * ((m \div d) * ONE + DivBits(m % d, d, 0, 22))
\* square root by bisection, of 0 <= a < 2^8
RECURSIVE Bisect(_, _, _, _)
Bisect(a, lo, hi, k) == IF k = 0 \/ hi - lo <= 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2
                             IN IF FMul(m, m) <= a THEN Bisect(a, m, hi, k - 1)
                                ELSE Bisect(a, lo, m, k - 1)
FSqrt(a) == IF a <= 0 THEN 0 ELSE Bisect(a, 0, 16 * ONE, 40)
\* |a - b| within an absolute tolerance
Close(a, b, t) == Abs(a) < 2^30 /\ Abs(b) < 2^30 /\ Abs(a - b) <= t

RECURSIVE SumAbs(_, _)
SumAbs(v, k) == IF k = 0 THEN 0 ELSE Abs(v[k]) + SumAbs(v, k - 1)
L1(v) == SumAbs(v, Len(v))
RECURSIVE SumSq(_, _)
SumSq(v, k) == IF k = 0 THEN 0 ELSE FMul(v[k], v[k]) + SumSq(v, k - 1)
FNorm(v) == FSqrt(SumSq(v, Len(v)))

FBilinear(T, x, y) ==
  TLCEval([k \in Blade |->
     FoldSeq(LAMBDA t, acc : acc + t[3] * FMul(x[t[1]], y[t[2]]), 0, T[k])])
FGP(x, y) == FBilinear(GPTerms, x, y)
FToMV(T, v) == TLCEval([b \in Blade |->
   LET i == LaneAt[T][b]
   IN IF i # 0 THEN Lanes[T][i][2] * v[i]
      ELSE IF T = "trans" /\ b = 0 THEN ONE ELSE 0])
FE(b) == [k \in Blade |-> IF k = b THEN ONE ELSE 0]
FScale(s, x) == TLCEval([k \in Blade |-> FMul(s, x[k])])
Halve(x, k) == TLCEval([b \in Blade |-> x[b] \div 2^k])
CloseMV(x, y, t) == \A b \in Blade : Close(x[b], y[b], t)

(* The exponential from its definition: power series of x / 2^k, squared k     *)
(* times.                                                                     *)
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(x, term, acc, n) ==
  IF n > 10 THEN acc
  ELSE LET t == FGP(term, x)
           u == TLCEval([b \in Blade |-> t[b] \div n])
       IN ExpSeries(x, u, Add(acc, u), n + 1)
RECURSIVE Squared(_, _)
Squared(x, k) == IF k = 0 THEN x ELSE Squared(FGP(x, x), k - 1)
RECURSIVE HalvingsFor(_, _)
HalvingsFor(m, k) == IF m <= ONE \div 2 \/ k > 8 THEN k ELSE HalvingsFor(m \div 2, k + 1)
FExp(x) == LET m == Max2(MaxAbs(<<x[6], x[10], x[12]>>), 1)
               k == HalvingsFor(m, 0)
           IN Squared(ExpSeries(Halve(x, k), FE(0), FE(0), 1), k)
PI  == 13176795                    \* pi * 2^22
=============================================================================
