------------------------------ MODULE GenMachine ------------------------------
(* Programs for the machine.  Instructions whose operands have grown too large  *)
(* for exact floats are replaced by a fresh load of the offending register.     *)
EXTENDS Machine, Cases, Json, IOUtils
CONSTANTS Seed, N, Length
L1(v) == LET f[k \in 0..Len(v)] == IF k = 0 THEN 0 ELSE f[k - 1] + Abs(v[k]) IN f[Len(v)]
Lim == 2^19
Cap(x, y) == IF y = 0 THEN x ELSE IF x > Lim \div y THEN Lim + 1 ELSE x * y
Weight(T, d, v) == LET w == L1(v) IN IF T = "trans" THEN Cap(w + 1, w + 1) ELSE IF d = 2 THEN Cap(w, w) ELSE w + d
Cost(o, x) == IF Len(o.a) = 1 THEN Weight(o.a[1], o.d[1], x[1])
              ELSE Cap(Weight(o.a[1], o.d[1], x[1]), Weight(o.a[2], o.d[2], x[2]))
Unitish(s, i, j) ==
  LET m == Rnd(s, i, j, 10)
      sg(k) == IF Rnd(s, i, j + k, 2) = 0 THEN 1 ELSE -1
      a == 1 + Rnd(s, i, j + 3, 4)
      b == 1 + Rnd(s, i, j + 4, 4)
  IN IF m < 5 THEN [k \in 1..4 |-> IF k = a THEN sg(1) ELSE 0]
     ELSE IF m < 9 THEN [k \in 1..4 |-> IF k = a THEN sg(1) ELSE IF k = b THEN sg(2) ELSE 0]
     ELSE [k \in 1..4 |-> IF Rnd(s, i, j + 4 + k, 2) = 0 THEN 1 ELSE -1]
TinyT(s, i, j) == [k \in 1..3 |-> IF Rnd(s, i, j + 20 + k, 2) = 0 THEN 0 ELSE Rnd(s, i, j + 30 + k, 5) - 2]
Fresh(T, s, i, j) ==
  CASE T = "rotor" -> Unitish(s, i, j)
    [] T = "trans" -> TinyT(s, i, j)
    [] T = "motor" -> FromMV("motor", GP(ToMV("trans", TinyT(s, i, j)), ToMV("rotor", Unitish(s, i, j))))
    [] T = "scalar" -> <<Pick(s, i, j, <<1, -1, 2, -3, 3>>)>>
    [] T = "point" -> <<Pick(s, i, j, <<1, 1, 1, -1, 2, 0>>)>> \o [k \in 1..3 |-> Rnd(s, i, j + k, 7) - 3]
    \* lines at infinity, lines through the origin, the plane at infinity, planes through the origin
    [] T = "line" /\ Rnd(s, i, j + 9, 3) # 2 ->
         LET h == Rnd(s, i, j + 9, 3) IN [k \in 1..6 |-> IF (k > 3) = (h = 0) THEN 0 ELSE Rnd(s, i, j + k, 7) - 3]
    [] T = "plane" /\ Rnd(s, i, j + 9, 4) < 2 ->
         LET h == Rnd(s, i, j + 9, 4) IN [k \in 1..4 |-> IF (k > 1) = (h = 0) THEN 0 ELSE Rnd(s, i, j + k, 7) - 3]
    [] OTHER -> [k \in 1..Dim(T) |-> IF Rnd(s, i, j + 10 + k, 3) = 0 THEN 0 ELSE Rnd(s, i, j + k, 7) - 3]
SetI(T, d, v) == [op |-> "set", T |-> T, d |-> d, s |-> 1, t |-> 1, v |-> v]
RECURSIVE Prog(_, _, _, _)
Prog(s, i, f, k) ==
  IF k = 0 THEN << >>
  ELSE LET j == 50 * k
           o == IF Rnd(s, i, j, 10) < 6 THEN Pick(s, i, j + 1, MovingOps) ELSE Pick(s, i, j + 1, OtherOps)
           c == [op |-> o.n, T |-> o.r, d |-> 1 + Rnd(s, i, j + 2, NR), s |-> 1 + Rnd(s, i, j + 3, NR), t |-> 1 + Rnd(s, i, j + 4, NR), v |-> << >>]
           x == Operands(f, o, c)
           r == Result(o, x)
           ok == /\ Defined(o, x)
                 /\ Cost(o, x) <= Lim
                 /\ MaxAbs(r) < 512
           big == IF Len(o.a) = 2 /\ (L1(x[2]) > L1(x[1]) /\ Defined(o, x)) THEN 2 ELSE 1
           ins == IF ok THEN c
                  ELSE SetI(o.a[big], IF big = 1 THEN c.s ELSE c.t, Fresh(o.a[big], s, i, j + 5))
           nf == IF ok THEN TLCEval([f EXCEPT ![o.r][c.d] = r]) ELSE TLCEval([f EXCEPT ![ins.T][ins.d] = ins.v])
       IN <<ins>> \o Prog(s, i, nf, k - 1)
InitFile(s, i) == TLCEval([T \in DOMAIN ZeroFile |-> [d \in 1..NR |-> Fresh(T, s, i, 20000 + 500 * d + 40 * Dim(T))]])
Boot(f) == LET RECURSIVE B(_)
               B(k) == IF k = 0 THEN << >>
                       ELSE B(k - 1) \o [d \in 1..NR |-> SetI(RT[k], d, f[RT[k]][d])]
           IN B(Len(RT))
Program(s, i) == LET f == InitFile(s, i) IN [boot |-> Boot(f), steps |-> Prog(s, i, f, Length)]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Program(Seed, i)]) /\ done' = TRUE
=============================================================================
