------------------------------- MODULE GenStore -------------------------------
(* Observations to make: comparisons of operands that differ in no, one or     *)
(* several components by less than, exactly or more than epsilon; stores and   *)
(* loads at every offset.                                                      *)
EXTENDS Store, Cases, Json, IOUtils
CONSTANTS Group, Seed, N
V(T, s, i, slot) == [j \in 1..Dim(T) |-> Rnd(s, i, 100 * slot + j, 201) - 100]
Sc(s, i) == Pick(s, i, 970, <<0, 0, 5, -4, 13, -12, 20>>)
Sign(s, i, j) == IF Rnd(s, i, j, 2) = 0 THEN 1 ELSE -1
Obs(k, T, a, b, eps, off, x) == [k |-> k, T |-> T, a |-> a, b |-> b, eps |-> eps, off |-> off, x |-> x, nz |-> 0]
\* nz = 1: the zeros of b are passed as negative zeros, which are the same number
\* eq: a and a copy with lane j changed by d, for every lane
EqCases(T, s) ==
  [q \in 1..(7 * Dim(T) * N) |->
     LET j == 1 + ((q - 1) % Dim(T))
         m == ((q - 1) \div Dim(T)) % 7
         v == V(T, s, q, 1)
         \* m = 4: one unit in the last place apart; m = 5, 6: zeros of both signs
         a == CASE m = 4 -> [v EXCEPT ![j] = Sign(s, q, 8) * (8388608 + Rnd(s, q, 500, 8000000))]
                [] m \in {5, 6} -> [i \in 1..Dim(T) |-> IF i = j \/ Rnd(s, q, 510 + i, 2) = 0 THEN 0 ELSE v[i]]
                [] OTHER -> v
         b == CASE m \in {0, 4} -> [a EXCEPT ![j] = @ + Sign(s, q, 7)]
                [] m \in {1, 5} -> a
                [] m = 2 -> [a EXCEPT ![j] = -@]
                [] m = 3 -> [a EXCEPT ![j] = 0]
                [] m = 6 -> [a EXCEPT ![1 + (j % Dim(T))] = @ + 1]
     IN [Obs("eq", T, a, IF q % 3 = 0 THEN a ELSE b, 0, 0,
             Pick(s, q, 971, <<0, 0, 5, -4, 13, -12, 20, -21, -30, -45, -60>>))
         EXCEPT !.nz = IF m >= 5 THEN 1 ELSE 0]]
ApproxCases(T, s) ==
  [q \in 1..(10 * Dim(T) * N) |->
     LET j == 1 + ((q - 1) % Dim(T))
         m == ((q - 1) \div Dim(T)) % 10
         w == Rnd(s, q, 601, 9)
         \* now and then nothing, or less than nothing; large numbers a few units apart
         eps == CASE w = 0 -> 0 [] w = 1 -> -1 - Rnd(s, q, 600, 9) [] w \in {2, 3} -> 1 + Rnd(s, q, 600, 3) [] OTHER -> 2 + Rnd(s, q, 600, 20)
         a == IF w \in {2, 3} THEN [i \in 1..Dim(T) |-> Sign(s, q, 620 + i) * (8300000 + Rnd(s, q, 640 + i, 8000000))] ELSE V(T, s, q, 1)
         near == [i \in 1..Dim(T) |-> IF eps <= 0 THEN a[i] ELSE a[i] + Sign(s, q, 300 + i) * Rnd(s, q, 400 + i, eps)]
         d == CASE m \in {0, 1} -> eps [] m \in {2, 3} -> eps - 1 [] m \in {4, 5} -> eps + 1 [] m \in {6, 8} -> 10 * eps [] m \in {7, 9} -> 0
         b == [near EXCEPT ![j] = a[j] + (IF m % 2 = 0 THEN d ELSE -d)]
     IN Obs("approx", T, a, IF m = 9 THEN a ELSE b, eps, 0,
            Pick(s, q, 971, <<0, 0, 5, -4, 13, -12, 20, -21, -24, -30, -45, -60>>))]
StoreCases(T, s) == [q \in 1..(9 * N) |-> Obs("store", T, V(T, s, q, 1), [j \in 1..12 |-> 1000 + 7 * j], 0, (q - 1) % 9, Sc(s, q))]
LoadCases(T, s) ==
  LET w == Len(Slots[BaseT(T)])
      offs == 13 - w
  IN [q \in 1..(9 * N) |->
        LET off == (q - 1) % offs
            mem == [j \in 1..12 |-> Rnd(s, q, j, 201) - 100]
        \* a slot the type does not define must hold zero
        IN Obs("load", T, << >>, [j \in 1..12 |-> IF j - off \in 1..w /\ Slots[BaseT(T)][j - off] = 0 THEN 0 ELSE mem[j]], 0, off, Sc(s, q))]
ConstrainCases(T, k, s) ==
  [q \in 1..(2 * Dim(T) + 6 * N) |->
     LET v == V(T, s, q, 1)
         \* a scalar part tiny against the rest
         w == IF q % 5 = 1 THEN [j \in 1..Dim(T) |-> IF j = 1 THEN Sign(s, q, 9) ELSE v[j] * 60000] ELSE v
     IN Obs(k, T, IF q <= 2 * Dim(T) THEN [j \in 1..Dim(T) |-> IF j = 1 + ((q - 1) % Dim(T)) THEN (IF q <= Dim(T) THEN 1 ELSE -1) ELSE 0]
                  ELSE IF q % 5 = 0 THEN [v EXCEPT ![1] = 0] ELSE w, << >>, 0, 0,
                  Pick(s, q, 972, <<0, 5, -12, 20, -21, -30, -45, -60, 60>>))]
RECURSIVE Cat(_, _)
Cat(ss, k) == IF k = 0 THEN << >> ELSE Cat(ss, k - 1) \o ss[k]
Flat(ss) == Cat(ss, Len(ss))
All == IF Group = "constrain"
       THEN Flat([k \in 1..4 |-> ConstrainCases(<<"rotor", "motor", "rotor", "motor">>[k],
                                                <<"constrain", "constrain", "constrained", "constrained">>[k], Seed + k)])
       ELSE Flat([k \in 1..Len(EqT) |-> EqCases(EqT[k], Seed + k)])
            \o Flat([k \in 1..Len(EqT) |-> ApproxCases(EqT[k], Seed + 10 + k)])
            \o Flat([k \in 1..Len(StoreT) |-> StoreCases(StoreT[k], Seed + 20 + k)])
            \o Flat([k \in 1..Len(LoadT) |-> LoadCases(LoadT[k], Seed + 30 + k)])
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, All) /\ done' = TRUE
=============================================================================
