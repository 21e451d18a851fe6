--------------------------------- MODULE GA ---------------------------------
(* Clifford algebra over an orthogonal basis, from first principles.         *)
(* A basis blade is the bit mask of its (ascending) generator indices; a      *)
(* signature is a sequence of squares, one of -1, 0, 1 per generator.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Bit(a, i) == (a \div 2^i) % 2

RECURSIVE XorFrom(_, _, _, _)
XorFrom(a, b, i, n) ==
  IF i = n THEN 0
  ELSE (IF Bit(a, i) # Bit(b, i) THEN 2^i ELSE 0) + XorFrom(a, b, i + 1, n)
Xor(n, a, b) == XorFrom(a, b, 0, n)

Bits(n, a)  == {i \in 0..(n - 1) : Bit(a, i) = 1}
Grade(n, a) == Cardinality(Bits(n, a))

\* Transpositions needed to sort the concatenation of two ascending blades.
Swaps(n, a, b) == Cardinality({p \in Bits(n, a) \X Bits(n, b) : p[1] > p[2]})

Parity(k) == IF k % 2 = 0 THEN 1 ELSE -1

RECURSIVE ProdOver(_, _)
ProdOver(S, sq) == IF S = {} THEN 1
                   ELSE LET i == CHOOSE j \in S : TRUE
                        IN sq[i + 1] * ProdOver(S \ {i}, sq)

\* e_a e_b = BladeSign * e_(a xor b)
BladeSign(sq, a, b) ==
  LET n == Len(sq)
  IN Parity(Swaps(n, a, b)) * ProdOver(Bits(n, a) \cap Bits(n, b), sq)

\* exterior product sign (0 if they share a generator)
ExtSign(n, a, b) == IF Bits(n, a) \cap Bits(n, b) # {} THEN 0
                    ELSE Parity(Swaps(n, a, b))

\* symmetric inner product: keep the grade |r - s| part
DotSign(sq, a, b) ==
  LET n == Len(sq)
      d == Grade(n, a) - Grade(n, b)
      t == IF d < 0 THEN -d ELSE d
  IN IF Grade(n, Xor(n, a, b)) = t THEN BladeSign(sq, a, b) ELSE 0

\* reversion parity of a grade
RevSign(g) == Parity((g * (g - 1)) \div 2)

-----------------------------------------------------------------------------
(* The concrete algebra P(R*_{3,0,1}): e0^2 = 0, e1^2 = e2^2 = e3^2 = 1.      *)

PGA   == <<0, 1, 1, 1>>
Blade == 0..15

XorT  == [a \in Blade |-> [b \in Blade |-> Xor(4, a, b)]]
GradeT == [a \in Blade |-> Grade(4, a)]

\* For every result blade k the sequence of <<left blade, right blade, sign>>
TermsBy(Sg(_, _)) ==
  [k \in Blade |-> SetToSeq({t \in {<<a, XorT[a][k], Sg(a, XorT[a][k])>> : a \in Blade}
                                 : t[3] # 0})]
GPTerms  == TermsBy(LAMBDA a, b : BladeSign(PGA, a, b))
ExtTerms == TermsBy(LAMBDA a, b : ExtSign(4, a, b))
DotTerms == TermsBy(LAMBDA a, b : DotSign(PGA, a, b))

\* Multivectors are functions Blade -> Int
Zero == [k \in Blade |-> 0]
E(b) == [k \in Blade |-> IF k = b THEN 1 ELSE 0]

Bilinear(T, x, y) ==
  TLCEval([k \in Blade |->
     FoldSeq(LAMBDA t, acc : acc + t[3] * x[t[1]] * y[t[2]], 0, T[k])])

GP(x, y)  == Bilinear(GPTerms, x, y)
Ext(x, y) == Bilinear(ExtTerms, x, y)
Dot(x, y) == Bilinear(DotTerms, x, y)
Add(x, y) == TLCEval([k \in Blade |-> x[k] + y[k]])
Sub(x, y) == TLCEval([k \in Blade |-> x[k] - y[k]])
Scale(s, x) == TLCEval([k \in Blade |-> s * x[k]])
Rev(x)    == TLCEval([k \in Blade |-> RevSign(GradeT[k]) * x[k]])
GradePart(x, g) == TLCEval([k \in Blade |-> IF GradeT[k] = g THEN x[k] ELSE 0])

\* conjugation (sandwich) r x ~r
Sandwich(r, x) == GP(GP(r, x), Rev(r))
=============================================================================
