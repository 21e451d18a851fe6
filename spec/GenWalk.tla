-------------------------------- MODULE GenWalk -------------------------------
EXTENDS Walk, Cases, Json, IOUtils
CONSTANTS Seed, N, Length
Kinds == <<"mix", "m", "r", "mix", "t", "m", "mix", "mix">>
\* a unit rotation and a translation of it, to set off from, over the denominator n
Away(s, i) ==
  LET r == RandRotor(s, i, 2)
      n == LET f(k) == r[k] * r[k] IN f(1) + f(2) + f(3) + f(4)
      q == FromMV("rotor", GP(ToMV("rotor", r), ToMV("rotor", r)))
      t == RandTrans(s, i, 3)
      T == [b \in Blade |-> IF b = 0 THEN 4 ELSE ToMV("trans", t)[b]]
  IN [n |-> 4 * n, M |-> FromMV("motor", GP(T, ToMV("rotor", q))), R |-> [k \in 1..4 |-> 4 * q[k]], T |-> [k \in 1..3 |-> n * t[k]]]
AtOne == [n |-> 1, M |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, R |-> <<1, 0, 0, 0>>, T |-> <<0, 0, 0>>]
Small3(s, i, j, n) == [k \in 1..3 |-> IF Rnd(s, i, j + 10 + k, 4) = 0 THEN 0 ELSE Rnd(s, i, j + k, 2 * n + 1) - n]
\* bounds, in hundredths, of the translations in M and T along the walk: where M would grow too
\* large it is put together anew
RECURSIVE Tamed(_, _, _, _, _)
Tamed(st, k, bm, bt, inc) ==
  IF k > Len(st) THEN << >>
  ELSE LET n == st[k]
           am == CASE n \in {"R*T", "T*R"} -> bt
                   [] n \in {"T*M", "M*T"} -> bm + bt
                   [] OTHER -> bm + inc
       IN IF am > 1400 THEN <<"R*T">> \o Tamed(st, k + 1, bt, bt, inc)
          ELSE <<n>> \o Tamed(st, k + 1, am, IF n \in {"t*T", "T*t", "T/t"} THEN bt + inc ELSE bt, inc)
OneWalk(s, i) ==
  LET kind == Kinds[1 + (i % 8)]
      w == Small3(s, i, 1, 3)
      u == IF w = <<0, 0, 0>> THEN <<1, 0, -2>> ELSE w
      v == Small3(s, i, 40, 6) \o u
      \* a step is no bigger than lets the whole walk turn by a few radians
      den == (Length * Pick(s, i, 80, <<2, 3, 8, 30, 120, 400>>))
      ops == WalkOps[kind]
  IN [kind |-> kind, v |-> v, den |-> den, from |-> IF kind = "mix" THEN Away(s, i) ELSE AtOne,
      P |-> <<1>> \o Small3(s, i, 100, 3), Q |-> <<Rnd(s, i, 119, 5) - 2>> \o Small3(s, i, 120, 2), L |-> Small3(s, i, 140, 2) \o Small3(s, i, 160, 2),
      \* mostly the same few operations, so that some registers go a long way
      steps |-> Tamed([k \in 1..Length |-> LET c == Rnd(s, i, 300 + 7 * k, 6)
                                         j == IF c < 3 THEN 1 + Rnd(s, i, 90 + c, Len(ops)) ELSE 1 + Rnd(s, i, 302 + 7 * k, Len(ops))
                                     IN ops[j].n], 1, 220, 220, (1100 \div den) + 1)]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> OneWalk(Seed, i)]) /\ done' = TRUE
=============================================================================
