------------------------------ MODULE GenBlades -------------------------------
(* Pairs of basis elements in algebras of up to thirty dimensions.              *)
EXTENDS Rand, TLC, Json, IOUtils
CONSTANTS Seed, N
RECURSIVE Mask(_, _, _, _)
Mask(s, i, j, n) == IF n = 0 THEN 0 ELSE 2 * Mask(s, i, j, n - 1) + Rnd(s, i, j + n, 2)
Row(s, i) ==
  LET n == 5 + Rnd(s, i, 1, 26)
      p == Rnd(s, i, 2, n + 1)
      q == Rnd(s, i, 3, n - p + 1)
      m == Rnd(s, i, 4, 4)
      a == Mask(s, i, 100, n)
      b == Mask(s, i, 200, n)
      lone(k) == 2^Rnd(s, i, k, n)
  IN [sig |-> <<p, q, n - p - q>>, a |-> IF m = 1 THEN lone(5) ELSE a,
      b |-> CASE m = 2 -> a [] m = 3 -> 2^n - 1 - a [] OTHER -> b]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Row(Seed, i)]) /\ done' = TRUE
=============================================================================
