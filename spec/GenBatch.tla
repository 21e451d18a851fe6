------------------------------- MODULE GenBatch -------------------------------
(* Programs of array applications: sizes from nothing to past every plausible   *)
(* unrolling, the whole array or part of it, in place or disjoint.              *)
EXTENDS Batch, Cases, Json, IOUtils
CONSTANTS Seed, N, Long
SmallR(s, i, j) == LET v == [k \in 1..4 |-> Rnd(s, i, j + k, 3) - 1]
                   IN IF \A k \in 1..4 : v[k] = 0 THEN <<1, 0, -1, 0>> ELSE v
SmallT(s, i, j) == [k \in 1..3 |-> Rnd(s, i, j + 10 + k, 5) - 2]
Motion(M, s, i, j) ==
  IF M = "rotor" THEN SmallR(s, i, j)
  ELSE FromMV("motor", GP(ToMV("trans", SmallT(s, i, j)), ToMV("rotor", SmallR(s, i, j))))
Sizes == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17>>
RECURSIVE Run_(_, _, _, _, _, _)
\* steps are chosen against the memory they will find, so as to stay within exact floats
Run_(M, T, s, i, mem, k) ==
  IF k = 0 THEN << >>
  ELSE LET m == Len(mem)
           kind == Rnd(s, i, 700 + k, 6)
           n == CASE kind = 0 -> 0
                  [] kind \in {1, 2} -> m
                  [] kind = 3 -> m \div 2
                  [] OTHER -> 1 + Rnd(s, i, 710 + k, m)
           half == n <= m \div 2
           src == CASE n = m -> 0
                    [] Rnd(s, i, 720 + k, 2) = 0 -> 0
                    [] OTHER -> m - n
           dst == IF half /\ n > 0 /\ Rnd(s, i, 730 + k, 3) > 0 THEN (IF src = 0 THEN (IF Rnd(s, i, 740 + k, 2) = 0 THEN n ELSE m - n) ELSE 0) ELSE src
           st == [v |-> Motion(M, s, i, 100 * k + 1000), src |-> src, dst |-> dst, n |-> n]
           after == AfterApp(M, T, mem, st)
       IN IF \A c \in 1..m : MaxAbs(after[c]) < 2^16 THEN <<st>> \o Run_(M, T, s, i, after, k - 1) ELSE << >>
Program(M, T, s, i) ==
  LET m == IF i <= Long THEN 40 + Rnd(s, i, 1, 200) ELSE Pick(s, i, 2, Sizes)
      mem == [c \in 1..m |-> [j \in 1..Dim(T) |-> Rnd(s, i, 3000 + 10 * c + j, 19) - 9]]
  IN [M |-> M, T |-> T, mem |-> mem, x |-> Pick(s, i, 3, <<0, 0, 4, -9>>),
      steps |-> Run_(M, T, s, i, mem, 1 + Rnd(s, i, 4, 3))]
Combos == [c \in 1..8 |-> <<MotionTypes[1 + ((c - 1) \div 4)], EntityTypes[1 + ((c - 1) % 4)]>>]
RECURSIVE Cat(_)
Cat(c) == IF c = 0 THEN << >>
          ELSE Cat(c - 1) \o [i \in 1..N |-> Program(Combos[c][1], Combos[c][2], Seed + 53 * c, i)]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, Cat(8)) /\ done' = TRUE
=============================================================================
