-------------------------------- MODULE SymLaws -------------------------------
(* What the symbolic specification itself must satisfy, model checked: the      *)
(* products of every signature obey the axioms of a Clifford algebra, the       *)
(* polynomials those of a ring, the term order is a monomial order, printing    *)
(* distinguishes different values.                                             *)
EXTENDS Sym
CONSTANTS Family, MaxDim
VARIABLES w, full

Signed(e, c) == <<e[1], c * e[2]>>
\* signed blade products, 0 absorbing
Then(op(_, _, _), s, e, b) == IF e[2] = 0 THEN <<0, 0>> ELSE LET r == op(s, e[1], b) IN IF r[2] = 0 THEN <<0, 0>> ELSE Signed(r, e[2])
Before(op(_, _, _), s, a, e) == IF e[2] = 0 THEN <<0, 0>> ELSE LET r == op(s, a, e[1]) IN IF r[2] = 0 THEN <<0, 0>> ELSE Signed(r, e[2])
Zap(e) == IF e[2] = 0 THEN <<0, 0>> ELSE e
Sigs == {s \in (0..MaxDim) \X (0..MaxDim) \X (0..MaxDim) : s[1] + s[2] + s[3] \in 1..MaxDim}
BladesOf(s) == 0..(2^(s[1] + s[2] + s[3]) - 1)
BladeW == {<<s, a>> : s \in Sigs, a \in 0..(2^MaxDim - 1)}
Algebra ==
  LET s == w[1]  a == w[2]
      n == s[1] + s[2] + s[3]
  IN a \in BladesOf(s) =>
     /\ \A b \in BladesOf(s) :
          LET ab == SymGP(s, a, b)  ba == SymGP(s, b, a)
              ga == Grade(n, a)  gb == Grade(n, b)
          IN /\ \A c \in BladesOf(s) : Then(SymGP, s, ab, c) = Before(SymGP, s, a, SymGP(s, b, c))
                                       /\ Then(SymExt, s, SymExt(s, a, b), c) = Before(SymExt, s, a, SymExt(s, b, c))
             \* reversion is an antiautomorphism
             /\ RevSign(Grade(n, ab[1])) * ab[2] = RevSign(ga) * RevSign(gb) * ba[2]
             \* the exterior product is the part of highest grade
             /\ SymExt(s, a, b)[2] = IF Grade(n, ab[1]) = ga + gb THEN ab[2] ELSE 0
             \* distinct generators anticommute, their squares are the signature
             /\ (ga = 1 /\ gb = 1) => IF a = b THEN ab = <<0, Squares(s)[CHOOSE i \in 1..n : 2^(i - 1) = a]>>
                                      ELSE ab[2] = -ba[2] /\ ab[2] # 0
     /\ SymGP(s, 0, a) = <<a, 1>> /\ SymGP(s, a, 0) = <<a, 1>>
     /\ Cardinality({i \in 1..n : Squares(s)[i] = 1}) = s[1] /\ Cardinality({i \in 1..n : Squares(s)[i] = -1}) = s[2]

PG == <<3, 0, 1>>
Duality ==   \* in the algebra of 3D projective geometry
  LET a == w[1]  b == w[2]  ja == SymJ(a)
  IN /\ Signed(SymJ(ja[1]), ja[2]) = <<a, 1>>
     /\ Grade(4, ja[1]) = 4 - Grade(4, a)
     /\ LET r == SymReg(PG, a, b)  jb == SymJ(b)
        IN Zap(IF r[2] = 0 THEN <<0, 0>> ELSE Signed(SymJ(r[1]), r[2])) = Zap(Signed(SymExt(PG, ja[1], jb[1]), ja[2] * jb[2]))
DualW == {<<a, b>> : a \in 0..15, b \in 0..15}

X_ == <<120>>  Y_ == <<121>>  XY_ == <<120, 121>>
Mons == {Keep(f, {X_, Y_, XY_}) : f \in [{X_, Y_, XY_} -> {-1, 0, 1, 2}]}
Coef == {-2 * D, -D, D, 2 * D}
FewM == {m \in Mons : Cardinality(DOMAIN m) <= 1 \/ \A v \in DOMAIN m : m[v] = 1}
\* products do not reverse the order of monomials of different degree, the order is total
Order ==
  LET m == w[1]  n == w[2]
  IN /\ (m = n) = (~MonLess(m, n) /\ ~MonLess(n, m))
     /\ ~(MonLess(m, n) /\ MonLess(n, m))
     /\ MonMul(m, n) = MonMul(n, m) /\ TotalDegree(MonMul(m, n)) = TotalDegree(m) + TotalDegree(n)
     /\ \A k \in Mons : MonLess(m, n) /\ MonLess(n, k) => MonLess(m, k)
     /\ \A k \in FewM : MonMul(MonMul(m, n), k) = MonMul(m, MonMul(n, k))
     /\ (m # n) => MonStr(MonSeq(m)) # MonStr(MonSeq(n))
OrderW == {<<m, n>> : m \in Mons, n \in Mons}

Two == {PolyTerm(One_, D), PolyTerm(MonVar(X_), -D), PolyTerm(MonVar(Y_), 2 * D), PolyTerm(MonPush(One_, X_, -1), D)}
Polys == {PolyAdd(p, q) : p \in Two \cup {Empty}, q \in {PolyNeg(t) : t \in Two} \cup Two \cup {Empty}}
Ring ==
  LET p == w[1]  q == w[2]
  IN /\ PolyAdd(p, q) = PolyAdd(q, p) /\ PolyMul(p, q) = PolyMul(q, p)
     /\ PolyAdd(p, PolyNeg(p)) = Empty
     /\ \A r \in Polys : PolyMul(p, PolyAdd(q, r)) = PolyAdd(PolyMul(p, q), PolyMul(p, r))
                         /\ PolyMul(p, PolyMul(q, r)) = PolyMul(PolyMul(p, q), r)
     /\ (PolyMul(p, q) = Empty) = (p = Empty \/ q = Empty)
     /\ (PolyStr(p) = PolyStr(q)) = (p = q)
     /\ \A m \in DOMAIN p : p[m] # 0 /\ \A v \in DOMAIN m : m[v] # 0
RingW == {<<p, q>> : p \in Polys, q \in Polys}

Witnesses == TLCEval(CASE Family = "algebra" -> BladeW [] Family = "duality" -> DualW
                       [] Family = "order" -> OrderW [] Family = "ring" -> RingW)
Law == CASE Family = "algebra" -> Algebra [] Family = "duality" -> Duality
         [] Family = "order" -> Order [] Family = "ring" -> Ring
Init == full = FALSE /\ w \in {<<x[1]>> : x \in Witnesses}
Next == ~full /\ full' = TRUE /\ w' \in {x \in Witnesses : x[1] = w[1]}
Holds == full => Law
=============================================================================
