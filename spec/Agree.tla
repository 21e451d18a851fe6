--------------------------------- MODULE Agree --------------------------------
(* One call made in several builds of the library: the observations agree.      *)
(* Products are polynomials evaluated without rounding here, so their results    *)
(* are the same number; operations that go through reciprocals, roots and        *)
(* trigonometry agree to single precision.                                       *)
EXTENDS Approx
Spread(rs, j) == LET vals == {rs[c][j] : c \in 1..Len(rs)}
                     hi == CHOOSE x \in vals : \A y \in vals : y <= x
                     lo == CHOOSE x \in vals : \A y \in vals : x <= y
                 IN hi - lo
Largest(rs) == LET m == {MaxAbs(rs[c]) : c \in 1..Len(rs)} IN CHOOSE x \in m : \A y \in m : y <= x
SameShape(rs) == Len(rs) > 0 /\ \A c \in 1..Len(rs) : Len(rs[c]) = Len(rs[1])
\* the logarithm of a half turn may be reported about either direction of the axis, Euler
\* angles at the poles are not unique: these are judged up to what they denote (K17, K20)
TolFor(k, m) == CASE k = "exact" -> 0
                  [] k = "near" -> 2 + m \div 16384
                  [] OTHER -> 96 + m \div 32768
Agree(k, rs) ==
  /\ SameShape(rs)
  /\ LET t == TolFor(k, Largest(rs))
     IN \A j \in 1..Len(rs[1]) : /\ \A c \in 1..Len(rs) : Abs(rs[c][j]) < 2^30
                                 /\ Spread(rs, j) <= t
=============================================================================
