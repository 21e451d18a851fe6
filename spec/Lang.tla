---------------------------------- MODULE Lang ---------------------------------
(* The expression language of the symbolic shell, over sequences of bytes.      *)
(* Lex: text -> tokens or failure.  Val: tokens -> multivector or failure, by   *)
(* splitting at the last operator of loosest binding, which is what left         *)
(* association means; there is no resemblance to the recursive descent of the    *)
(* implementation.  A value is [ok, ex, v]; ex tells whether v is exact, that    *)
(* is within what single precision represents in units of 1/D (D = 16).         *)
EXTENDS Sym
Space(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122
Alnum(c) == Alpha(c) \/ Digit(c)
Numeric(c) == Digit(c) \/ c = 46
OpByte(c) == c \in {43, 45, 126, 42, 94, 38, 124}      \* + - ~ * ^ & |
\* one past the run of bytes satisfying P that starts at i
RunEnd(t, i, P(_)) == LET S == {k \in i..Len(t) : ~P(t[k])} IN IF S = {} THEN Len(t) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j

\* a number: digits, possibly one dot and digits after it
NumEnd(t, i) == LET a == RunEnd(t, i, Digit)
                IN IF a <= Len(t) /\ t[a] = 46 THEN RunEnd(t, a + 1, Digit) ELSE a
RECURSIVE Dec(_)
Dec(s) == IF s = << >> THEN 0 ELSE 10 * Dec(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
RECURSIVE NoLead(_)
NoLead(s) == IF s # << >> /\ s[1] = 48 THEN NoLead(Tail(s)) ELSE s
NumVal(s) ==
  LET dot == {k \in 1..Len(s) : s[k] = 46}
      ip == NoLead(IF dot = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in dot : TRUE) - 1))
      fp == StripZ(IF dot = {} THEN << >> ELSE SubSeq(s, (CHOOSE k \in dot : TRUE) + 1, Len(s)))
  IN IF Len(ip) > 5 \/ Len(fp) > 4 THEN [ex |-> FALSE, v |-> 0]
     ELSE IF ((Dec(fp) * D) % (10^Len(fp))) # 0 THEN [ex |-> FALSE, v |-> 0]
     ELSE [ex |-> TRUE, v |-> Dec(ip) * D + ((Dec(fp) * D) \div (10^Len(fp)))]

\* how a number of at most six significant digits is shown (single precision keeps them, and six are shown)
LeadZ(s) == Len(s) - Len(NoLead(s))
DecShow(s) ==
  LET dot == {k \in 1..Len(s) : s[k] = 46}
      ip == NoLead(IF dot = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in dot : TRUE) - 1))
      fp == StripZ(IF dot = {} THEN << >> ELSE SubSeq(s, (CHOOSE k \in dot : TRUE) + 1, Len(s)))
      sig == StripZ(NoLead(ip \o fp))                                       \* significant digits
      x == IF ip # << >> THEN Len(ip) - 1 ELSE -1 - LeadZ(fp)                \* decimal exponent
      ax == IF x < 0 THEN -x ELSE x
  IN IF sig = << >> \/ Len(sig) > 6 \/ ax > 30 THEN [ok |-> FALSE, s |-> << >>]
     ELSE [ok |-> TRUE, s |->
       IF x < -4 \/ x >= 6
       THEN <<sig[1]>> \o (IF Len(sig) = 1 THEN << >> ELSE <<46>> \o Tail(sig))
            \o <<101, IF x < 0 THEN 45 ELSE 43, 48 + (ax \div 10), 48 + (ax % 10)>>
       ELSE (IF ip = << >> THEN <<48>> ELSE ip) \o (IF fp = << >> THEN << >> ELSE <<46>> \o fp)]

\* a basis element: indices of the algebra, none repeated; each pair out of order is a sign
ElemOf(s, n) ==
  LET is == [k \in 1..Len(s) |-> s[k] - 48]
      set == {is[k] : k \in 1..Len(is)}
      inv == Cardinality({p \in (1..Len(is)) \X (1..Len(is)) : p[1] < p[2] /\ is[p[1]] > is[p[2]]})
  IN IF (\E k \in 1..Len(is) : is[k] >= n) \/ Cardinality(set) # Len(is) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, b |-> FoldSet(LAMBDA k, acc : acc + 2^k, 0, set), sg |-> Parity(inv)]

Broken == [ok |-> FALSE, ts |-> << >>]
RECURSIVE LexFrom(_, _, _, _)
LexFrom(t, i, n, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, ts |-> acc]
  ELSE LET c == t[i]
       IN IF Space(c) THEN LexFrom(t, i + 1, n, acc)
          ELSE IF c = 0 THEN [ok |-> TRUE, ts |-> acc]          \* the text ends at a zero byte
          ELSE IF c \in {40, 41} \/ OpByte(c) THEN LexFrom(t, i + 1, n, Append(acc, [k |-> "sym", c |-> c]))
          ELSE IF Digit(c)
               THEN IF RunEnd(t, i, Numeric) - i > 32 THEN Broken
                    ELSE LET j == NumEnd(t, i) IN LexFrom(t, j, n, Append(acc, [k |-> "num", v |-> NumVal(SubSeq(t, i, j - 1))]))
          ELSE IF c = 101 /\ i < Len(t) /\ Digit(t[i + 1])
               THEN LET j == RunEnd(t, i + 1, Digit)
                        e == ElemOf(SubSeq(t, i + 1, j - 1), n)
                    IN IF e.ok THEN LexFrom(t, j, n, Append(acc, [k |-> "el", b |-> e.b, sg |-> e.sg])) ELSE Broken
          ELSE IF Alpha(c)
               THEN LET j == RunEnd(t, i, Alnum) IN LexFrom(t, j, n, Append(acc, [k |-> "id", v |-> SubSeq(t, i, j - 1)]))
          ELSE Broken

IsSym(x, c) == x.k = "sym" /\ x.c = c
EndsOperand(x) == x.k # "sym" \/ x.c = 41
\* nesting depth after each token
Depths(ts) == LET f[k \in 0..Len(ts)] == IF k = 0 THEN 0 ELSE f[k - 1] + (IF IsSym(ts[k], 40) THEN 1 ELSE IF IsSym(ts[k], 41) THEN -1 ELSE 0)
              IN TLCEval([k \in 0..Len(ts) |-> f[k]])
Balanced(ts) == LET d == Depths(ts) IN d[Len(ts)] = 0 /\ \A k \in 0..Len(ts) : d[k] >= 0
Level(c) == CASE c \in {43, 45} -> 1 [] c = 42 -> 2 [] c = 94 -> 3 [] c = 38 -> 4 [] c = 124 -> 5 [] OTHER -> 0

NoValue == [ok |-> FALSE, ex |-> FALSE, v |-> Empty]
Unknown == [ok |-> TRUE, ex |-> FALSE, v |-> Empty]
Known(v) == IF MVSmall(v) THEN [ok |-> TRUE, ex |-> TRUE, v |-> v] ELSE Unknown
Blade1(b, p) == IF IsEmpty(p) THEN Empty ELSE [x \in {b} |-> p]
OpName(c) == CASE c = 42 -> "mul" [] c = 94 -> "ext" [] c = 38 -> "reg" [] c = 124 -> "dot"
Apply(c, sg, x, y) ==
  IF ~x.ok \/ ~y.ok THEN NoValue
  ELSE IF ~x.ex \/ ~y.ex THEN Unknown
  ELSE IF c = 43 THEN Known(MVAdd(x.v, y.v))
  ELSE IF c = 45 THEN Known(MVSub(x.v, y.v))
  ELSE IF MVExactMul(x.v, y.v) THEN Known(MVProd(OpName(c), sg, x.v, y.v)) ELSE Unknown
Apply1(c, x) == IF ~x.ok THEN NoValue ELSE IF ~x.ex THEN Unknown
                ELSE IF c = 43 THEN x ELSE IF c = 45 THEN Known(MVNeg(x.v)) ELSE Known(MVRev(x.v))
Coef(t) == IF t.k = "id" THEN [ex |-> TRUE, p |-> PolyTerm(MonVar(t.v), D)]
           ELSE [ex |-> t.v.ex, p |-> PolyTerm(One_, t.v.v)]
RECURSIVE Val(_, _)
Val(ts, sg) ==
  LET n == Len(ts)
      d == Depths(ts)
      bin == {k \in 2..n : ts[k].k = "sym" /\ OpByte(ts[k].c) /\ d[k] = 0 /\ EndsOperand(ts[k - 1])}
  IN IF n = 0 THEN NoValue
     ELSE IF \E k \in bin : Level(ts[k].c) = 0 THEN NoValue
     ELSE IF bin # {} THEN
       LET lo == CHOOSE l \in 1..5 : (\E k \in bin : Level(ts[k].c) = l) /\ \A k \in bin : Level(ts[k].c) >= l
           at == CHOOSE k \in bin : Level(ts[k].c) = lo /\ \A j \in bin : Level(ts[j].c) = lo => j <= k
       IN Apply(ts[at].c, sg, Val(SubSeq(ts, 1, at - 1), sg), Val(SubSeq(ts, at + 1, n), sg))
     ELSE IF ts[1].k = "sym" /\ ts[1].c \in {43, 45, 126} THEN Apply1(ts[1].c, Val(Tail(ts), sg))
     ELSE IF IsSym(ts[1], 40)
          THEN IF IsSym(ts[n], 41) /\ (\A k \in 1..(n - 1) : d[k] > 0) THEN Val(SubSeq(ts, 2, n - 1), sg) ELSE NoValue
     ELSE IF ts[1].k \in {"id", "num"} /\ (n = 1 \/ (n = 2 /\ ts[2].k = "el"))
          THEN LET c == Coef(ts[1])
                   p == IF n = 2 /\ ts[2].sg = -1 THEN PolyNeg(c.p) ELSE c.p
               IN IF c.ex THEN Known(Blade1(IF n = 2 THEN ts[2].b ELSE 0, p)) ELSE Unknown
     ELSE IF ts[1].k = "el" /\ n = 1 THEN Known(Blade1(ts[1].b, PolyTerm(One_, ts[1].sg * D)))
     ELSE NoValue
\* the meaning of a text in the algebra of signature sg
Value(t, sg) == LET L == LexFrom(t, 1, sg[1] + sg[2] + sg[3], << >>)
                IN IF ~L.ok THEN NoValue ELSE IF ~Balanced(L.ts) THEN NoValue ELSE Val(L.ts, sg)
\* how deep a text nests; beyond a hundred levels an answer or an error will do
TextDepth(t) == LET RECURSIVE M(_, _, _)
                    M(k, d, m) == IF k > Len(t) THEN m
                                  ELSE LET e == d + (IF t[k] = 40 THEN 1 ELSE IF t[k] = 41 THEN -1 ELSE 0)
                                       IN M(k + 1, e, IF e > m THEN e ELSE m)
                IN M(1, 0, 0)

-----------------------------------------------------------------------------
(* The shell: a line is a comment, a command, blank, or an expression.          *)
FirstInk(t) == RunEnd(t, 1, Space)
Kind(t) == LET k == FirstInk(t)
           IN IF k > Len(t) THEN "blank" ELSE IF t[k] = 35 THEN "comment" ELSE IF t[k] = 46 THEN "command" ELSE "expr"
ShellSig == <<3, 0, 1>>
=============================================================================
