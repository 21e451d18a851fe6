--------------------------------- MODULE Laws --------------------------------
(* What the specification itself must satisfy, model checked: every state is   *)
(* a witness of one law family, the invariant says the law holds there.  The   *)
(* products are multilinear by definition, so laws checked on all basis blades *)
(* hold for all multivectors.                                                 *)
EXTENDS Approx

CONSTANT Family
VARIABLE w

Vec == {1, 2, 4, 8}                       \* the generators as blades
Sq(b) == PGA[CHOOSE i \in 1..4 : 2^(i - 1) = b]

(* ---- products on all basis blades -------------------------------------- *)
\* <<a, b, c>>
Products ==
  LET a == w[1]  b == w[2]  c == w[3]
      A == E(a)  B == E(b)  C == E(c)
      r == GradeT[a]  s == GradeT[b]
      d == IF r > s THEN r - s ELSE s - r
      AB == GP(A, B)
  IN \* associativity, of all three associative products
     /\ GP(AB, C) = GP(A, GP(B, C))
     /\ Ext(Ext(A, B), C) = Ext(A, Ext(B, C))
     /\ Reg(Reg(A, B), C) = Reg(A, Reg(B, C))
     \* generators: squares and anticommutation
     /\ (a \in Vec /\ b \in Vec) => Add(AB, GP(B, A)) = IF a = b THEN Scale(2 * Sq(a), E(0)) ELSE Zero
     /\ GP(E(0), A) = A /\ GP(A, E(0)) = A
     \* the other products are grade parts
     /\ (r + s <= 4 => Ext(A, B) = GradePart(AB, r + s)) /\ (r + s > 4 => Ext(A, B) = Zero)
     /\ Dot(A, B) = GradePart(AB, d)
     /\ Ext(A, B) = Scale(Parity(r * s), Ext(B, A))
     \* reversion is an antiautomorphism and an involution
     /\ Rev(AB) = GP(Rev(B), Rev(A)) /\ Rev(Rev(A)) = A
     \* duality: involution, grade k to 4 - k, meet and join exchanged
     /\ J(J(A)) = A /\ GradePart(J(A), 4 - r) = J(A)
     /\ J(Reg(A, B)) = Ext(J(A), J(B)) /\ J(Ext(A, B)) = Reg(J(A), J(B))
ProductW == Blade \X Blade \X Blade

(* ---- rigid motions are automorphisms ------------------------------------ *)
\* twice a unit quaternion (the 24 Hurwitz units), and all of them with integer entries
Units2 == {q \in [1..4 -> {-2, -1, 0, 1, 2}] : q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4] = 4}
Shifts == {<<0, 0, 0>>, <<1, -2, 3>>, <<0, 5, -1>>}
Rigid(q, t) == GP(ToMV("trans", t), ToMV("rotor", q))
\* <<q, t, a, b>>
Motions ==
  LET m == Rigid(w[1], w[2])
      A == E(w[3])  B == E(w[4])
      SA == Sandwich(m, A)  SB == Sandwich(m, B)
  IN /\ GP(m, Rev(m)) = Scale(4, E(0)) /\ GP(Rev(m), m) = Scale(4, E(0))
     /\ Study(FromMV("motor", m))
     /\ GP(SA, SB) = Scale(4, Sandwich(m, GP(A, B)))
     /\ Ext(SA, SB) = Scale(4, Sandwich(m, Ext(A, B)))
     /\ Dot(SA, SB) = Scale(4, Sandwich(m, Dot(A, B)))
     /\ Reg(SA, SB) = Scale(4, Sandwich(m, Reg(A, B)))
     /\ Sandwich(Rev(m), SA) = Scale(16, A)
     \* what a motor does to the type of an object
     /\ GradePart(SA, GradeT[w[3]]) = SA
MotionW == {q \in Units2 : q[1] >= 0} \X Shifts \X {1, 2, 4, 8, 12, 5, 14, 13} \X {1, 2, 8, 6, 9, 14, 7}

(* ---- incidence, reflection, projection on a grid -------------------------- *)
Pt(x, y, z) == ToMV("point", <<1, x, y, z>>)
Pl(v) == ToMV("plane", v)
\* <<p, q, r, plane>>
Grid == {-1, 0, 2}
IncidenceW == {<<p, q, v>> : p \in {<<0, 0, 0>>, <<1, -2, 3>>, <<2, 0, -1>>, <<-1, 4, 0>>},
                             q \in {<<0, 1, 0>>, <<3, 3, -2>>, <<1, -2, 3>>},
                             v \in {<<d, a, b, c>> : d \in Grid, a \in Grid, b \in Grid, c \in Grid}}
Parallel(x, y) == \A i, j \in Blade : x[i] * y[j] = x[j] * y[i]
Incidence ==
  LET p == Pt(w[1][1], w[1][2], w[1][3])  q == Pt(w[2][1], w[2][2], w[2][3])
      v == w[3]
      V == Pl(v)
      n2 == v[2]*v[2] + v[3]*v[3] + v[4]*v[4]
      on == v[1] + v[2]*w[1][1] + v[3]*w[1][2] + v[4]*w[1][3]     \* signed distance times norm
      pq == Reg(p, q)
      foot == Ext(Dot(p, V), V)
      par  == Dot(Dot(V, p), p)
  IN \* the point with coordinates x, y, z is on the plane with equation ax + by + cz + d = 0
     /\ Ext(V, p)[15] = on \/ Ext(V, p)[15] = -on
     \* the join contains both points, its real part is the difference, its square the distance
     /\ Reg(pq, p) = Zero /\ Reg(pq, q) = Zero
     /\ GP(pq, pq)[0] = -((w[1][1]-w[2][1])^2 + (w[1][2]-w[2][2])^2 + (w[1][3]-w[2][3])^2)
     \* the meet of a line and a plane is on the plane
     /\ Ext(Ext(pq, V), V) = Zero
     \* projection lands on the plane and is idempotent up to scale, unless the plane is ideal
     /\ Ext(foot, V) = Zero
     /\ Parallel(Ext(Dot(foot, V), V), foot)
     \* the parallel plane through the point
     /\ Ext(par, p) = Zero /\ par[2] * v[3] = par[4] * v[2] /\ par[2] * v[4] = par[8] * v[2]
     \* reflecting twice is the identity, up to the squared norm twice
     /\ GP(GP(V, GP(GP(V, p), V)), V) = Scale(n2 * n2, p)
     \* two reflections are the motor of the product
     /\ LET u == Pl(<<1, 2, -1, 0>>)  m == GP(u, V)
        IN Sandwich(m, p) = GP(GP(u, GP(GP(V, p), V)), u)

(* ---- the fixed point exponential ------------------------------------------ *)
Angles == {0, 1, ONE \div 8, ONE, 3 * ONE, PI \div 2, PI, -PI \div 2, -ONE}
AxisB == {12, 10, 6}
ExpW == Angles \X Angles \X AxisB
TolE == 200
Exponential ==
  LET s == w[1]  t == w[2]  b == w[3]
      x(k) == [c \in Blade |-> IF c = b THEN k ELSE 0]
      es == FExp(x(s))
      y(k) == [c \in Blade |-> IF c = 3 THEN k ELSE 0]
  IN /\ CloseMV(FGP(es, FExp(x(t))), FExp(x(s + t)), TolE)
     /\ CloseMV(FGP(es, Rev(es)), FE(0), TolE)
     \* ideal part: exactly linear
     /\ CloseMV(FExp(y(s)), [c \in Blade |-> IF c = 0 THEN ONE ELSE IF c = 3 THEN s ELSE 0], 8)
     /\ (s = PI => CloseMV(es, Scale(-1, FE(0)), TolE))
     /\ (s = PI \div 2 => CloseMV(es, [c \in Blade |-> IF c = b THEN ONE ELSE 0], TolE))
     \* root and norm
     /\ LET n == FNorm(<<s, t>>) IN Close(FMul(n, n), FMul(s, s) + FMul(t, t), 64)

Witnesses == CASE Family = "products" -> ProductW [] Family = "motions" -> MotionW
               [] Family = "incidence" -> IncidenceW [] Family = "exp" -> ExpW
Law == CASE Family = "products" -> Products [] Family = "motions" -> Motions
         [] Family = "incidence" -> Incidence [] Family = "exp" -> Exponential
(* A state is the first component of a witness, then the witness: the workers   *)
(* of TLC share the first components.                                          *)
WitnessSet == TLCEval(Witnesses)
VARIABLE full
Init == full = FALSE /\ w \in {<<x[1]>> : x \in WitnessSet}
Next == ~full /\ full' = TRUE /\ w' \in {x \in WitnessSet : x[1] = w[1]}
Holds == full => Law
=============================================================================
