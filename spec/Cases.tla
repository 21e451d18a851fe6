-------------------------------- MODULE Cases --------------------------------
(* Choice of operands.  For each operation: every combination of basis        *)
(* components (quadratic operands: also sums of two), which determines a       *)
(* polynomial map of the declared degrees completely, then random operands     *)
(* with sparse, dense, small and repeated patterns, each optionally scaled by  *)
(* powers of two per operand (degree-homogeneous) and per factor of e0 (an     *)
(* automorphism of the algebra), which keeps float arithmetic exact.           *)
EXTENDS Klein, Rand

UnitV(T, i) == [j \in 1..Dim(T) |-> IF i = j THEN 1 ELSE 0]
ZeroV(T) == [j \in 1..Dim(T) |-> 0]
AddV(v, w) == [j \in 1..Len(v) |-> v[j] + w[j]]

\* implicit-one translators are affine in their components: add the zero vector
BasisV(T, d) ==
  IF T = "trans" THEN {ZeroV(T)} \cup {UnitV(T, i) : i \in 1..Dim(T)}
                     \cup {AddV(UnitV(T, i), UnitV(T, j)) : i \in 1..Dim(T), j \in 1..Dim(T)}
  ELSE IF d = 2 /\ T # "motor"
       THEN {UnitV(T, i) : i \in 1..Dim(T)}
            \cup {AddV(UnitV(T, p[1]), UnitV(T, p[2])) : p \in {q \in (1..Dim(T)) \X (1..Dim(T)) : q[1] < q[2]}}
  ELSE {UnitV(T, i) : i \in 1..Dim(T)}

BasisArgs(o) ==
  IF Len(o.a) = 1 THEN {<<u>> : u \in BasisV(o.a[1], o.d[1])}
  ELSE {<<u, w>> : u \in BasisV(o.a[1], o.d[1]), w \in BasisV(o.a[2], o.d[2])}

(* random components: the pattern depends on the case number i, slot is the    *)
(* position of the operand                                                    *)
RandComp(s, i, slot, j) ==
  LET pat == Rnd(s, i, 900 + slot, 5)
      z   == Rnd(s, i, 100 * slot + 40 + j, 6)
      v   == Rnd(s, i, 100 * slot + j, 19) - 9
  IN CASE pat = 0 -> IF z < 3 THEN 0 ELSE v
       [] pat = 1 -> IF z < 1 THEN 0 ELSE v
       [] pat = 2 -> Rnd(s, i, 100 * slot + j, 3) - 1
       [] pat = 3 -> IF z < 4 THEN 0 ELSE v
       [] pat = 4 -> IF v = 0 THEN 7 ELSE v
RandPlain(s, i, slot, T) == [j \in 1..Dim(T) |-> RandComp(s, i, slot, j)]

\* a rotor that is not zero, small enough to square
RandRotor(s, i, slot) ==
  LET v == [j \in 1..4 |-> Rnd(s, i, 100 * slot + 60 + j, 7) - 3]
  IN IF \A j \in 1..4 : v[j] = 0 THEN <<0, 1, -2, 0>>
     ELSE IF Rnd(s, i, 100 * slot + 72, 8) = 0   \* close to the identity or to a half turn
          THEN [v EXCEPT ![1 + Rnd(s, i, 100 * slot + 73, 4)] = 100]
     ELSE IF Rnd(s, i, 100 * slot + 70, 4) = 0
          THEN UnitV("rotor", 1 + Rnd(s, i, 100 * slot + 71, 4)) ELSE v
RandTrans(s, i, slot) ==
  [j \in 1..3 |-> IF Rnd(s, i, 100 * slot + 80, 4) = 0 THEN 0 ELSE Rnd(s, i, 100 * slot + 80 + j, 11) - 5]
\* rigid motion as translation after rotation (always meets the Study condition)
RandRigid(s, i, slot) ==
  FromMV("motor", GP(ToMV("trans", RandTrans(s, i, slot)), ToMV("rotor", RandRotor(s, i, slot))))

\* quaternions of norm 1 and (to be halved) norm 4: the Hurwitz units
UnitRotor(s, i, slot) ==
  LET g == Rnd(s, i, 100 * slot + 90, 2)
      sg == IF Rnd(s, i, 100 * slot + 91, 2) = 0 THEN 1 ELSE -1
  IN IF g = 0 THEN [j \in 1..4 |-> 2 * sg * UnitV("rotor", 1 + Rnd(s, i, 100 * slot + 92, 4))[j]]
     ELSE [j \in 1..4 |-> IF Rnd(s, i, 100 * slot + 92 + j, 2) = 0 THEN 1 ELSE -1]

\* points with small components, and what is incident with them: lines that are joins (and so
\* have l ^ l = 0), points on them, planes through them
SmallPt(s, i, k) == [j \in 1..4 |-> Rnd(s, i, k + j, 5) - 2]
JoinPt(a, b) == Reg(ToMV("point", a), ToMV("point", b))
TrueLine(s, i, k) == FromMV("line", JoinPt(SmallPt(s, i, k), SmallPt(s, i, k + 5)))
IncidentPairs == {<<"line", "plane">>, <<"plane", "line">>, <<"line", "point">>, <<"point", "line">>, <<"line", "line">>}
Incident(a, s, i) ==
  LET p == SmallPt(s, i, 1800)
      q == SmallPt(s, i, 1805)
      r == SmallPt(s, i, 1810)
      sg == Rnd(s, i, 1815, 3) - 1
      on == [j \in 1..4 |-> p[j] + sg * q[j]]
      of(T) == CASE T = "plane" -> FromMV("plane", Reg(JoinPt(p, q), ToMV("point", r)))
                 [] T = "point" -> on
      l == FromMV("line", JoinPt(p, q))
  IN CASE a = <<"line", "line">> -> <<l, FromMV("line", JoinPt(on, r))>>
       [] a[1] = "line" -> <<l, of(a[2])>>
       [] OTHER -> <<of(a[1]), l>>
\* lines and branches along, and planes perpendicular to, one direction; lines: joins, some with a pitch
Directed == {"plane", "line", "branch"}
\* positions of the direction in plane (d, x, y, z), branch (x, y, z) and line (moment, direction)
Along(T, s, i, k, d) ==
  LET c == Pick(s, i, k, <<1, 2, -1, 3, -2>>)
      p == SmallPt(s, i, k + 1)
  IN CASE T = "plane"  -> <<p[1], c * d[1], c * d[2], c * d[3]>>
       [] T = "branch" -> <<c * d[1], c * d[2], c * d[3]>>
       [] T = "line"   -> <<c * (d[2] * p[3] - d[3] * p[2]), c * (d[3] * p[1] - d[1] * p[3]),
                            c * (d[1] * p[2] - d[2] * p[1]) + (IF p[4] = 2 THEN 3 ELSE 0),
                            c * d[1], c * d[2], c * d[3]>>
AlongPair(a, s, i) ==
  LET d == LET v == [j \in 1..3 |-> Rnd(s, i, 1820 + j, 7) - 3]
           IN IF Rnd(s, i, 1824, 4) = 0 THEN [v EXCEPT ![1 + Rnd(s, i, 1825, 3)] = 0] ELSE v
  IN <<Along(a[1], s, i, 1830, d), Along(a[2], s, i, 1840, d)>>
\* the same object but for one component, by little
NearPair(T, s, i) ==
  LET v == RandPlain(s, i, 1, T)
      b == [j \in 1..Dim(T) |-> 256 * v[j]]
  IN <<b, [b EXCEPT ![1 + Rnd(s, i, 1850, Dim(T))] = @ + 1]>>

RandArg(o, s, i, slot) ==
  LET T == o.a[slot]
  IN CASE T = "rotor" /\ UnitOp(o) -> UnitRotor(s, i, slot)
       [] T = "motor" /\ UnitOp(o) ->
            \* twice a unit motor; the case scales it by 1/2
            FromMV("motor", GP(ToMV("trans", RandTrans(s, i, slot)), ToMV("rotor", UnitRotor(s, i, slot))))
       [] T = "motor" /\ o.d[slot] = 2 -> RandRigid(s, i, slot)
       [] T = "motor" /\ Rnd(s, i, 950, 2) = 0 -> RandRigid(s, i, slot)
       [] T = "rotor" /\ o.d[slot] = 2 -> RandRotor(s, i, slot)
       [] T = "trans" -> RandTrans(s, i, slot)
       [] T = "line" /\ Rnd(s, i, 100 * slot + 95, 3) = 0 -> TrueLine(s, i, 1700 + 20 * slot)
       [] OTHER -> RandPlain(s, i, slot, T)

BigScalars == <<100003, -65537, 32768, -40000, 300007, 16777216, -262143, 70000, -16777216, 257, -1000, 1048576>>
SAbs(x) == IF x < 0 THEN -x ELSE x
TwoLinear(o) == o.f \in {"gp", "ext", "reg", "dot"} /\ o.d = <<1, 1>>
\* the plane with p's normal (times the weight) that contains q
Through(p, q) == <<-(p[2] * q[2] + p[3] * q[3] + p[4] * q[4]), p[2] * q[1], p[3] * q[1], p[4] * q[1]>>
RandArgs(o, s, i) ==
  IF Len(o.a) = 1 THEN <<RandArg(o, s, i, 1)>>
  ELSE LET u == RandArg(o, s, i, 1)
           w == RandArg(o, s, i, 2)
           m == Rnd(s, i, 960, 12)
       IN CASE UnitOp(o) -> <<u, w>>
            \* scalars far from the small ones, still exact
            [] o.f = "smul" /\ m >= 8 -> LET c == Pick(s, i, 962, BigScalars)
                                         room == (IF c \in {16777216, -16777216} THEN 1073741824 ELSE 16777216) \div SAbs(c)
                                     IN <<u, <<IF \A j \in 1..Len(u) : SAbs(u[j]) <= room THEN c ELSE 257>>>>
            \* close to parallel, close to equal
            [] m = 4 /\ o.a[1] = o.a[2] /\ TwoLinear(o) ->
                 LET pu == RandPlain(s, i, 1, o.a[1]) IN
                 <<[j \in 1..Len(u) |-> 128 * pu[j] + Rnd(s, i, 600 + j, 3) - 1], [j \in 1..Len(u) |-> 128 * pu[j] + Rnd(s, i, 620 + j, 3) - 1]>>
            \* components of very different sizes
            [] m \in {5, 6} /\ TwoLinear(o) ->
                 LET big(v, k) == IF m = 5 THEN [j \in 1..Len(v) |-> IF Rnd(s, i, k + j, 2) = 0 THEN v[j] ELSE 4096 * v[j]] ELSE v
                     bih(v, k) == IF m = 6 THEN [j \in 1..Len(v) |-> IF Rnd(s, i, k + j, 2) = 0 THEN v[j] ELSE 4096 * v[j]] ELSE v
                 IN <<big(RandPlain(s, i, 1, o.a[1]), 640), bih(RandPlain(s, i, 2, o.a[2]), 660)>>
            \* incident plane and point
            [] m = 7 /\ o.a = <<"plane", "point">> -> <<Through(u, w), w>>
            [] m = 7 /\ o.a = <<"point", "plane">> -> <<u, Through(w, u)>>
            [] m = 8 /\ o.a \in IncidentPairs -> Incident(o.a, s, i)
            [] m = 9 /\ {o.a[1], o.a[2]} \subseteq Directed -> AlongPair(o.a, s, i)
            [] m = 10 /\ o.a[1] = o.a[2] /\ TwoLinear(o) -> NearPair(o.a[1], s, i)
            [] m = 0 /\ o.a[1] = o.a[2] -> <<u, u>>
            [] m = 1 -> <<u, IF o.a[2] = "motor" THEN RandRigid(s, i, 2) ELSE ZeroV(o.a[2])>>
            [] m = 2 /\ o.a[1] # "motor" -> <<ZeroV(o.a[1]), w>>
            [] m = 3 -> <<u, UnitV(o.a[2], 1 + Rnd(s, i, 961, Dim(o.a[2])))>>
            [] OTHER -> <<u, w>>

-----------------------------------------------------------------------------
W0(T, j) == Bit(Lanes[T][j][1], 0)
ScaleChoices == <<0, 0, 0, 5, -4, 13, -12, 20, -21, 31, -33>>
E0Choices    == <<0, 0, 7, -6, 12, 20, -18>>

Exps(o, s, i) ==
  LET n == Len(o.a)
      e == [t \in 1..n |-> IF UnitOp(o) /\ t = 1 THEN -1
                           ELSE IF o.a[t] = "trans" /\ o.f \notin {"vadd", "vsub", "smul", "second"} THEN 0
                           ELSE IF o.d[t] = 0 THEN 0
                           ELSE IF o.f \in {"vadd", "vsub"} THEN Pick(s, i, 971, ScaleChoices)
                           ELSE Pick(s, i, 970 + t, ScaleChoices) \div (IF o.d[t] = 2 THEN 2 ELSE 1)]
      k == IF o.f = "dual" THEN 0 ELSE Pick(s, i, 980, E0Choices)
      tot == IF o.f \in {"second", "setconv"} THEN e[2]
             ELSE IF o.f \in {"vadd", "vsub"} THEN e[1]
             ELSE IF n = 1 THEN o.d[1] * e[1] ELSE o.d[1] * e[1] + o.d[2] * e[2]
  IN [x |-> [t \in 1..n |-> [j \in 1..Dim(o.a[t]) |-> e[t] + k * W0(o.a[t], j)]],
      rx |-> [j \in 1..Dim(o.r) |-> tot + k * (W0(o.r, j) + (IF o.f = "reg" THEN 1 ELSE 0)
                                          - (IF o.f \in {"mat", "umat"} THEN W0("pointA", 1 + ((j - 1) \div 4)) ELSE 0))]]

NoExps(o) ==
  LET h == IF UnitOp(o) THEN -1 ELSE 0
  IN [x |-> [t \in 1..Len(o.a) |-> [j \in 1..Dim(o.a[t]) |-> IF t = 1 THEN h ELSE 0]],
      rx |-> [j \in 1..Dim(o.r) |-> 2 * h]]

Case(o, v, x) == [op |-> o.n, a |-> v, x |-> x.x, rx |-> x.rx]

BasisCases(o) == IF UnitOp(o) THEN {}
                 ELSE {Case(o, v, NoExps(o)) : v \in {w \in BasisArgs(o) : Defined(o, w)}}
\* some cases follow one they share an operand, or all components but one, with: what an
\* implementation keeps between calls, keyed by less than everything, then shows
Bump(o, s, i, g) ==
  LET t == 1 + Rnd(s, i, 995, Len(g))
      j == 1 + Rnd(s, i, 996, Len(g[t]))
  IN IF UnitOp(o) \/ o.a[t] = "motor" \/ (\E q \in 1..Len(g) : \E k \in 1..Len(g[q]) : SAbs(g[q][k]) > 1000) THEN g
     ELSE [g EXCEPT ![t][j] = IF @ > 0 THEN @ - 1 ELSE @ + 1]
Twin(o, s, i) ==
  LET a == RandArgs(o, s, i - 1)
      b == RandArgs(o, s, i)
      w == Rnd(s, i, 994, 3)
      small(g) == \A q \in 1..Len(g) : \A k \in 1..Len(g[q]) : SAbs(g[q][k]) <= 1000
  IN IF Len(a) = 1 \/ w = 0 \/ ~small(a) \/ ~small(b) THEN Bump(o, s, i, a) ELSE IF w = 1 THEN <<a[1], b[2]>> ELSE <<b[1], a[2]>>
RandCases(o, s, n) == [i \in 1..n |-> IF i % 4 = 0 THEN Case(o, Twin(o, s, i), Exps(o, s, i - 1))
                                      ELSE Case(o, RandArgs(o, s, i), IF i % 2 = 0 THEN NoExps(o) ELSE Exps(o, s, i))]
CasesOf(o, s, n) == SetToSeq(BasisCases(o)) \o RandCases(o, s, n)
=============================================================================
