---------------------------------- MODULE Sym ---------------------------------
(* The symbolic side of Klein: Laurent monomials, polynomials, multivectors     *)
(* with polynomial coefficients over a Clifford algebra of any signature.       *)
(* A variable name is its sequence of bytes; a monomial is a function from      *)
(* variables to nonzero degrees, a polynomial a function from monomials to      *)
(* nonzero coefficients (in units of 1/D), a multivector a function from blades *)
(* to nonzero polynomials.  Being sets and functions these are canonical by     *)
(* construction: an implementation conforms if what it stores is exactly the    *)
(* content, in the documented order.                                            *)
EXTENDS GA, FiniteSetsExt
CONSTANT D
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- functions with default 0 / empty
Keep(f, S) == [x \in {y \in S : f[y] # 0} |-> f[x]]
One_ == << >>                                    \* the monomial 1, the empty function
Empty == << >>
IsEmpty(f) == DOMAIN f = {}
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0

MonPush(m, v, d) == LET n == [x \in DOMAIN m \cup {v} |-> At(m, x) + (IF x = v THEN d ELSE 0)] IN Keep(n, DOMAIN n)
MonMul(m, n) == LET f == [x \in DOMAIN m \cup DOMAIN n |-> At(m, x) + At(n, x)] IN Keep(f, DOMAIN f)
MonVar(v) == [x \in {v} |-> 1]

PolyAdd(p, q) == LET f == [m \in DOMAIN p \cup DOMAIN q |-> At(p, m) + At(q, m)] IN TLCEval(Keep(f, DOMAIN f))
PolyNeg(p) == [m \in DOMAIN p |-> -p[m]]
PolyTerm(m, c) == IF c = 0 THEN Empty ELSE [x \in {m} |-> c]
PolyPush(p, m, c) == PolyAdd(p, PolyTerm(m, c))
PolyMul(p, q) ==
  LET prs == (DOMAIN p) \X (DOMAIN q)
      ms == {MonMul(x[1], x[2]) : x \in prs}
      co(m) == LET S == {x \in prs : MonMul(x[1], x[2]) = m}
               IN FoldSet(LAMBDA x, acc : acc + (p[x[1]] * q[x[2]]) \div D, 0, S)
      f == [m \in ms |-> co(m)]
  IN TLCEval(Keep(f, DOMAIN f))
\* coefficients for which the above is what single precision computes
Bound == IF D = 16 THEN 8000000 ELSE 1073741824 \div D
PolyL1(p) == FoldSet(LAMBDA m, acc : acc + Abs(p[m]), 0, DOMAIN p)
Fine(p, q) == \A m \in DOMAIN p, n \in DOMAIN q : (p[m] * q[n]) % D = 0
ExactMul(p, q) == IsEmpty(p) \/ IsEmpty(q) \/ (PolyL1(p) <= (D * Bound) \div PolyL1(q) /\ Fine(p, q))
Small(p) == \A m \in DOMAIN p : Abs(p[m]) <= Bound

\* ---- multivectors
Prune(f) == LET S == {b \in DOMAIN f : ~IsEmpty(f[b])} IN TLCEval([b \in S |-> f[b]])
PAt(x, b) == IF b \in DOMAIN x THEN x[b] ELSE Empty
MVPush(x, b, p) == Prune([c \in DOMAIN x \cup {b} |-> IF c = b THEN PolyAdd(PAt(x, b), p) ELSE x[c]])
MVAdd(x, y) == Prune([b \in DOMAIN x \cup DOMAIN y |-> PolyAdd(PAt(x, b), PAt(y, b))])
MVNeg(x) == [b \in DOMAIN x |-> PolyNeg(x[b])]
MVSub(x, y) == MVAdd(x, MVNeg(y))
NBits == 16
MVRev(x) == [b \in DOMAIN x |-> IF RevSign(Grade(NBits, b)) = 1 THEN x[b] ELSE PolyNeg(x[b])]

\* signature <<p, q, r>>: the degenerate generators come first
Squares(s) == [i \in 1..(s[1] + s[2] + s[3]) |->
                 IF i <= s[3] THEN 0 ELSE IF i <= s[3] + s[1] THEN 1 ELSE -1]
\* the dual coordinate map of 3D PGA: planes and points keep their components
\* (e1 <-> e032, ...), lines swap e0i and ejk, 1 <-> e0123
SymJ(b) == CASE b = 0 -> <<15, 1>> [] b = 15 -> <<0, 1>>
             [] b = 1 -> <<14, 1>> [] b = 14 -> <<1, 1>>
             [] b = 2 -> <<13, -1>> [] b = 13 -> <<2, -1>>
             [] b = 4 -> <<11, 1>> [] b = 11 -> <<4, 1>>
             [] b = 8 -> <<7, -1>> [] b = 7 -> <<8, -1>>
             [] b = 3 -> <<12, 1>> [] b = 12 -> <<3, 1>>
             [] b = 5 -> <<10, -1>> [] b = 10 -> <<5, -1>>
             [] b = 9 -> <<6, 1>> [] b = 6 -> <<9, 1>>
\* a product of blades as <<blade, sign>>, sign 0 if it vanishes
SymGP(s, a, b) == LET sq == Squares(s) IN <<Xor(Len(sq), a, b), BladeSign(sq, a, b)>>
SymExt(s, a, b) == LET n == s[1] + s[2] + s[3] IN <<Xor(n, a, b), ExtSign(n, a, b)>>
\* the inner product of a scalar with anything is zero (Hestenes)
SymDot(s, a, b) == LET sq == Squares(s) IN <<Xor(Len(sq), a, b), IF a = 0 \/ b = 0 THEN 0 ELSE DotSign(sq, a, b)>>
SymReg(s, a, b) == LET j == SymJ(a)  k == SymJ(b)
                       e == SymExt(s, j[1], k[1])
                       r == SymJ(e[1])
                   IN <<r[1], j[2] * k[2] * e[2] * (IF e[2] = 0 THEN 0 ELSE r[2])>>
BladeOp(op, s, a, b) == CASE op = "mul" -> SymGP(s, a, b) [] op = "ext" -> SymExt(s, a, b)
                          [] op = "dot" -> SymDot(s, a, b) [] op = "reg" -> SymReg(s, a, b)
MVProd(op, s, x, y) ==
  LET prs == (DOMAIN x) \X (DOMAIN y)
      res == [pr \in prs |-> BladeOp(op, s, pr[1], pr[2])]
      live == {pr \in prs : res[pr][2] # 0}
      bs == {res[pr][1] : pr \in live}
      co(b) == FoldSet(LAMBDA pr, acc : PolyAdd(acc, IF res[pr][2] = 1 THEN PolyMul(x[pr[1]], y[pr[2]])
                                                     ELSE PolyNeg(PolyMul(x[pr[1]], y[pr[2]]))),
                       Empty, {pr \in live : res[pr][1] = b})
  IN Prune([b \in bs |-> co(b)])
MVL1(x) == FoldSet(LAMBDA b, acc : acc + PolyL1(x[b]), 0, DOMAIN x)
MVExactMul(x, y) == IsEmpty(x) \/ IsEmpty(y) \/ (MVL1(x) <= (D * Bound) \div MVL1(y) /\ \A a \in DOMAIN x, b \in DOMAIN y : Fine(x[a], y[b]))
MVSmall(x) == \A b \in DOMAIN x : Small(x[b])

-----------------------------------------------------------------------------
(* Order of the stored and printed terms.                                     *)
LexLess(u, v) ==   \* of byte sequences
  LET n == IF Len(u) < Len(v) THEN Len(u) ELSE Len(v)
      df == {i \in 1..n : u[i] # v[i]}
  IN IF df = {} THEN Len(u) < Len(v)
     ELSE LET i == CHOOSE k \in df : \A j \in df : k <= j IN u[i] < v[i]
VarSeq(m) == SetToSortSeq(DOMAIN m, LexLess)
MonSeq(m) == LET vs == VarSeq(m) IN [i \in 1..Len(vs) |-> <<vs[i], m[vs[i]]>>]
TotalDegree(m) == LET s == MonSeq(m) IN FoldSeq(LAMBDA t, acc : acc + t[2], 0, s)
\* graded, then lexical in the sequence of (variable, degree)
MonLess(m, n) ==
  LET dm == TotalDegree(m)  dn == TotalDegree(n)
      a == MonSeq(m)  b == MonSeq(n)
      k == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      df == {i \in 1..k : a[i] # b[i]}
  IN IF dm # dn THEN dm < dn
     ELSE IF df = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE x \in df : \A j \in df : x <= j
          IN LexLess(a[i][1], b[i][1]) \/ (a[i][1] = b[i][1] /\ a[i][2] < b[i][2])
PolySeq(p) == LET ms == SetToSortSeq(DOMAIN p, MonLess) IN [i \in 1..Len(ms) |-> <<MonSeq(ms[i]), p[ms[i]]>>]
BladeLess(a, b) == Grade(NBits, a) < Grade(NBits, b) \/ (Grade(NBits, a) = Grade(NBits, b) /\ a < b)
MVSeq(x) == LET bs == SetToSortSeq(DOMAIN x, BladeLess) IN [i \in 1..Len(bs) |-> <<bs[i], PolySeq(x[bs[i]])>>]

-----------------------------------------------------------------------------
(* Printing, as bytes.                                                        *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE StripZ(_)
StripZ(s) == IF s # << >> /\ s[Len(s)] = 48 THEN StripZ(SubSeq(s, 1, Len(s) - 1)) ELSE s
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
\* D divides 16; six significant digits are printed
PrintableNum(c) == LET m == Abs(c) IN IF m % D = 0 THEN m \div D < 1000000 ELSE m % (D \div 16) = 0 /\ m \div D < 100
NumStr(c) == LET m == Abs(c)
                 fr == ((m % D) * 10000) \div D
             IN (IF c < 0 THEN <<45>> ELSE << >>) \o Digits(m \div D)
                \o (IF fr = 0 THEN << >> ELSE <<46>> \o StripZ(Pad4(fr)))
IntStr(n) == (IF n < 0 THEN <<45>> ELSE << >>) \o Digits(Abs(n))
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = << >> THEN << >>
                     ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)
FactorStr(f) == f[1] \o (IF f[2] = 1 THEN << >> ELSE <<94>> \o IntStr(f[2]))
MonStr(ms) == JoinWith([i \in 1..Len(ms) |-> FactorStr(ms[i])], <<32>>)
\* a lone coefficient is always shown, before variables one is not and minus one is a sign
TermStr(t) == IF t[1] = << >> THEN NumStr(t[2])
              ELSE (IF t[2] = D THEN << >> ELSE IF t[2] = -D THEN <<45>> ELSE NumStr(t[2])) \o MonStr(t[1])
Plus == <<32, 43, 32>>
PolyStr(p) == LET s == PolySeq(p)
                  body == JoinWith([i \in 1..Len(s) |-> TermStr(s[i])], Plus)
              IN IF Len(s) > 1 THEN <<40>> \o body \o <<41>> ELSE body
BladeStr(b) == IF b = 0 THEN << >>
               ELSE <<32, 101>> \o LET is == SetToSortSeq({i \in 0..(NBits - 1) : Bit(b, i) = 1}, LAMBDA i, j : i < j)
                                   IN [k \in 1..Len(is) |-> 48 + is[k]]
MVStr(x) == IF IsEmpty(x) THEN <<48>>
            ELSE LET bs == SetToSortSeq(DOMAIN x, BladeLess)
                 IN JoinWith([i \in 1..Len(bs) |-> PolyStr(x[bs[i]]) \o BladeStr(bs[i])], Plus)
PrintablePoly(p) == \A m \in DOMAIN p : PrintableNum(p[m])
PrintableMV(x) == \A b \in DOMAIN x : PrintablePoly(x[b])
=============================================================================
