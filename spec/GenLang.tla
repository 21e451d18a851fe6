-------------------------------- MODULE GenLang --------------------------------
(* Texts: well-formed ones rendered from random syntax trees (whose meaning,    *)
(* computed on the tree, must be the meaning of the text), damaged ones, token  *)
(* soup and noise; and shell scripts made of such lines.                         *)
EXTENDS Lang, Rand, Json, IOUtils
CONSTANTS Seed, N, Mode
Zeros(n) == [k \in 1..n |-> 48]
\* long names that differ late
Long(n, c) == [k \in 1..n |-> IF k = n THEN c ELSE 103 + (k % 7)]
Nums == <<<<49>>, <<50>>, <<51>>, <<48>>, <<51, 46, 53>>, <<48, 46, 50, 53>>, <<49, 48>>, <<48, 48, 55>>, <<52, 46>>,
          <<49, 50, 46, 48, 54, 50, 53>>, <<49, 46, 53, 48, 48, 48>>, <<50>>, <<49>>, <<48, 46, 49>>,
          Zeros(31) \o <<51>>, Zeros(12) \o <<55>>, <<50, 46, 53>> \o Zeros(29), <<49, 46>> \o Zeros(14), Zeros(9) \o <<49, 50>> \o <<46, 55, 53>> \o Zeros(18)>>
Ids == <<<<97>>, <<98>>, <<99>>, <<120, 49>>, <<70, 111, 111>>, <<101>>, <<101, 120, 112>>, <<122, 57, 101, 49>>, <<97>>, <<98>>,
         Long(13, 97), Long(13, 98), Long(17, 97), Long(17, 90), Long(40, 97), Long(40, 48), Long(41, 97), Long(70, 122)>>
Sigs == <<<<3, 0, 1>>, <<3, 0, 1>>, <<3, 0, 1>>, <<3, 0, 1>>, <<2, 0, 0>>, <<1, 3, 0>>, <<4, 1, 0>>, <<2, 1, 2>>, <<5, 2, 2>>>>
Lit(s, i, j, n) ==
  LET w == Rnd(s, i, j + 1, 6)
      len == 1 + Rnd(s, i, j + 2, IF n < 4 THEN n ELSE 4)
      r0 == Rnd(s, i, j + 3, n)
      stride == Pick(s, i, j + 4, <<1, n - 1, 1, n - 1, 2>>)
      \* distinct indices in some order: steps of +-1 round the circle, or of two if that cannot repeat
      st == IF stride = 2 /\ 2 * len > n THEN 1 ELSE stride
      sw == [k \in 1..len |-> (r0 + st * (k - 1)) % n]
      el == IF n = 0 THEN << >>
            ELSE IF len > 2 /\ Rnd(s, i, j + 5, 2) = 0 THEN <<sw[2], sw[1]>> \o SubSeq(sw, 3, len) ELSE sw
  IN [t |-> "lit", num |-> IF w < 2 THEN Pick(s, i, j + 6, Nums) ELSE << >>,
      id |-> IF w \in {2, 3} THEN Pick(s, i, j + 6, Ids) ELSE << >>,
      el |-> IF w = 0 \/ (w = 2 /\ Rnd(s, i, j + 7, 2) = 0) \/ n = 0 THEN << >> ELSE el]
Leaf(s, i, j, n) == LET x == Lit(s, i, j + 1000, n) IN IF x.num = << >> /\ x.id = << >> /\ x.el = << >> THEN [x EXCEPT !.num = <<50>>] ELSE x
OpsFor(sg) == IF sg = <<3, 0, 1>> THEN <<43, 45, 42, 42, 94, 38, 124, 43, 45>> ELSE <<43, 45, 42, 42, 94, 124>>
RECURSIVE Tree(_, _, _, _, _, _)
\* po: the operator above; chains of one operator are made often, so that association shows
Tree(s, i, j, d, sg, po) ==
  LET w == IF d = 0 THEN Rnd(s, i, j, 4) ELSE Rnd(s, i, j, 12)
      n == sg[1] + sg[2] + sg[3]
      op == IF Rnd(s, i, j + 2, 5) < 2 /\ po # 0 THEN po ELSE Pick(s, i, j + 1, OpsFor(sg))
      plus(x, y) == [t |-> "bin", c |-> 43, x |-> x, y |-> y]
  IN IF w < 3 THEN Leaf(s, i, j, n)
     ELSE IF w < 5 THEN plus(plus(Leaf(s, i, 50 * j + 300, n), Leaf(s, i, 50 * j + 311, n)), Leaf(s, i, 50 * j + 322, n))
     ELSE IF w = 5 THEN [t |-> "un", c |-> Pick(s, i, j + 1, <<45, 126, 43, 45, 126>>), x |-> Tree(s, i, 2 * j, d - 1, sg, po)]
     ELSE [t |-> "bin", c |-> op, x |-> Tree(s, i, 2 * j, d - 1, sg, op), y |-> Tree(s, i, 2 * j + 1, d - 1, sg, op)]
RECURSIVE Meaning(_, _)
Meaning(x, sg) ==
  CASE x.t = "un" -> Apply1(x.c, Meaning(x.x, sg))
    [] x.t = "bin" -> Apply(x.c, sg, Meaning(x.x, sg), Meaning(x.y, sg))
    [] x.t = "lit" ->
         LET e == IF x.el = << >> THEN [ok |-> TRUE, b |-> 0, sg |-> 1] ELSE ElemOf([k \in 1..Len(x.el) |-> 48 + x.el[k]], sg[1] + sg[2] + sg[3])
             q == IF x.num # << >> THEN NumVal(x.num) ELSE [ex |-> TRUE, v |-> D]
             p == PolyTerm(IF x.id # << >> THEN MonVar(x.id) ELSE One_, e.sg * q.v)
         IN IF q.ex THEN Known(Blade1(e.b, p)) ELSE Unknown
SpaceSet == IF Mode = "shell" THEN <<32, 32, 9, 11, 13>> ELSE <<32, 32, 32, 9, 10, 11, 12, 13>>
Sp(s, i, j) == LET w == Rnd(s, i, j, 8) IN IF w < 5 THEN << >> ELSE IF w < 7 THEN <<32>> ELSE <<Pick(s, i, j + 1, SpaceSet), Pick(s, i, j + 2, SpaceSet)>>
LevelOf(x) == IF x.t = "bin" THEN Level(x.c) ELSE IF x.t = "un" THEN 6 ELSE 7
RECURSIVE Render(_, _, _, _, _)
Render(x, need, s, i, j) ==
  LET g(k) == Sp(s, i, 40000 + 8 * j + k)
      body == CASE x.t = "bin" -> Render(x.x, Level(x.c), s, i, 2 * j) \o g(1) \o <<x.c>> \o g(2) \o Render(x.y, Level(x.c) + 1, s, i, 2 * j + 1)
                [] x.t = "un" -> <<x.c>> \o g(3) \o Render(x.x, 6, s, i, 2 * j)
                [] OTHER -> LET e == IF x.el = << >> THEN << >> ELSE <<101>> \o [k \in 1..Len(x.el) |-> 48 + x.el[k]]
                                c == x.num \o x.id
                            IN c \o (IF x.id # << >> /\ e # << >> THEN <<32>> ELSE IF e # << >> /\ c # << >> THEN g(4) ELSE << >>) \o e
      paren == LevelOf(x) < need \/ Rnd(s, i, 30000 + j, 9) = 0
  IN IF paren THEN <<40>> \o g(5) \o body \o g(6) \o <<41>> ELSE body
Expr(s, i, sg) ==
  LET x == TLCEval(Tree(s, i, 1, 1 + Rnd(s, i, 99, 4), sg, Pick(s, i, 97, OpsFor(sg))))
      t == Sp(s, i, 20001) \o Render(x, 1, s, i, 1) \o Sp(s, i, 20004)
  IN [t |-> t, x |-> x]
\* damage
Odd == <<0, 1, 33, 35, 36, 46, 47, 58, 64, 91, 95, 96, 123, 127, 128, 200, 255, 40, 41, 43, 101, 57, 44, 61>>
Mutate(t, s, i, k) ==
  LET w == Rnd(s, i, k, 8)
      n == Len(t)
      at == IF n = 0 THEN 1 ELSE 1 + Rnd(s, i, k + 1, n)
      a2 == IF n = 0 THEN 1 ELSE 1 + Rnd(s, i, k + 2, n)
      c == IF Rnd(s, i, k + 3, 3) = 0 THEN Rnd(s, i, k + 4, 256)
           ELSE IF n > 0 /\ Rnd(s, i, k + 3, 3) = 1 THEN t[a2] ELSE Pick(s, i, k + 4, Odd)
      lo == IF at < a2 THEN at ELSE a2
      hi == IF at < a2 THEN a2 ELSE at
  IN IF n = 0 THEN <<c>>
     ELSE CASE w \in {0, 1} -> SubSeq(t, 1, at - 1) \o <<c>> \o SubSeq(t, at, n)
            [] w \in {2, 3} -> SubSeq(t, 1, at - 1) \o SubSeq(t, at + 1, n)
            [] w = 4 -> SubSeq(t, 1, at - 1) \o <<c>> \o SubSeq(t, at + 1, n)
            [] w = 5 -> SubSeq(t, 1, at)
            [] w = 6 -> SubSeq(t, 1, lo - 1) \o SubSeq(t, lo, hi) \o SubSeq(t, lo, n)
            [] w = 7 -> SubSeq(t, 1, lo - 1) \o SubSeq(t, hi, n)
Words == <<<<40>>, <<41>>, <<43>>, <<45>>, <<126>>, <<42>>, <<94>>, <<38>>, <<124>>, <<32>>, <<101, 49>>, <<101, 48, 49, 50>>, <<101>>, <<97>>, <<97, 98>>,
           <<49>>, <<50, 46, 53>>, <<46>>, <<101, 49, 49>>, <<101, 52>>, <<101, 57>>, <<0>>, <<49, 46, 50, 46, 51>>, <<97, 32, 101, 49>>, <<50, 101, 51, 48>>,
           <<40, 97, 41>>, <<40>>, <<41>>, <<40, 41>>, <<35>>>>
RECURSIVE Soup(_, _, _, _)
Soup(s, i, k, n) == IF n = 0 THEN << >> ELSE Pick(s, i, k + n, Words) \o Soup(s, i, k, n - 1)
Rep(c, n) == [k \in 1..n |-> c]
Noise(s, i) == [k \in 1..Rnd(s, i, 300, 14) |-> IF Rnd(s, i, 301 + k, 2) = 0 THEN Rnd(s, i, 401 + k, 256) ELSE Pick(s, i, 401 + k, Odd)]
Extreme(s, i) ==
  LET k == Rnd(s, i, 500, 14)
      n == 28 + Rnd(s, i, 501, 12)
      dg == 48 + Rnd(s, i, 502, 10)
  IN CASE k = 0 -> Rep(dg, n)
       [] k = 1 -> Rep(dg, n) \o <<101, 49>>
       [] k = 2 -> <<49, 46>> \o Rep(dg, n - 2)
       [] k = 3 -> Rep(97 + Rnd(s, i, 503, 26), 1 + 3 * n)
       [] k = 4 -> <<101>> \o [j \in 1..(1 + Rnd(s, i, 504, 5)) |-> 48 + Rnd(s, i, 505 + j, 5)]
       [] k = 5 -> <<101>> \o [j \in 1..(1 + Rnd(s, i, 504, 9)) |-> 48 + Rnd(s, i, 505 + j, 10)]
       [] k = 6 -> Rep(40, n) \o <<97>> \o Rep(41, n + Pick(s, i, 504, <<0, 0, 0, 1, -1>>))
       [] k = 7 -> Rep(45, n) \o <<97>>
       [] k = 8 -> Rep(Pick(s, i, 504, <<126, 43, 45, 42>>), n)
       [] k = 9 -> Rep(46, n)
       [] k = 10 -> <<dg>> \o Rep(46, 1 + Rnd(s, i, 504, 3)) \o <<dg>>
       [] k = 11 -> Rep(32, n) \o (IF Rnd(s, i, 504, 2) = 0 THEN << >> ELSE <<97>>)
       [] k = 12 -> <<97, 0>> \o Soup(s, i, 520, 3)
       [] k = 13 -> Rep(48, n) \o <<49>>
Junk(s, i) ==
  LET w == Rnd(s, i, 600, 10)
      e == Expr(s, i, <<3, 0, 1>>).t
  IN IF w < 3 THEN Mutate(e, s, i, 610)
     ELSE IF w < 5 THEN Mutate(Mutate(Mutate(e, s, i, 610), s, i, 620), s, i, 630)
     ELSE IF w < 7 THEN Soup(s, i, 640, 1 + Rnd(s, i, 639, 7))
     ELSE IF w < 8 THEN Noise(s, i) ELSE Extreme(s, i)
\* one number of up to six significant digits, with what it multiplies and what is added to that
Decimals == << <<49, 46, 48, 48, 48, 48, 53>>, <<48, 46, 57, 57, 57, 57, 53>>, <<49, 46, 48, 48, 48, 48, 49>>, <<48, 46, 57, 57, 57, 57, 57, 57>>,
               <<49, 46, 48, 48, 50>>, <<48, 46, 57, 56>>, <<51, 46, 49, 52, 49, 53, 57>>, <<48, 46, 51, 51, 51, 51, 51, 51>>,
               <<49, 50, 51, 46, 52, 53, 54>>, <<49, 50, 51, 52, 53, 46, 54>>, <<57, 57, 57, 57, 57, 46, 53>>, <<54, 53, 53, 51, 53, 46, 49>>,
               <<48, 46, 48, 48, 48, 49>>, <<48, 46, 48, 48, 48, 49, 50, 51, 52, 53>>, <<48, 46, 48, 48, 48, 48, 49>>, <<48, 46, 48, 48, 48, 48, 49, 53>>,
               <<46, 49>>, <<46, 48, 55>>, <<49, 48, 48, 48, 48, 48, 48>>, <<49, 50, 51, 52, 53, 54>> \o Zeros(3), <<50, 53>> \o Zeros(9), <<48, 46>> \o Zeros(9) \o <<51>> >>
AnyDecimal(s, i) ==
  LET n == 1 + Rnd(s, i, 740, 6)
      d == [k \in 1..n |-> 48 + Rnd(s, i, 741 + k, 10)]
      p == Rnd(s, i, 748, n + 1)
  IN IF p = n THEN [d EXCEPT ![1] = 49 + Rnd(s, i, 749, 9)] ELSE SubSeq(d, 1, p) \o <<46>> \o SubSeq(d, p + 1, n - 1) \o <<49 + Rnd(s, i, 749, 9)>>
DecLine(s, i) ==
  LET nk == Rnd(s, i, 730, 6)
      num == IF nk = 0 THEN SubSeq(Decimals[1 + Rnd(s, i, 729, 2)], 1, 6) \o <<49 + Rnd(s, i, 731, 9)>>
             ELSE IF nk < 3 THEN Pick(s, i, 731, Decimals) ELSE AnyDecimal(s, i)
      pre == Pick(s, i, 732, << <<>>, <<>>, <<45>>, <<97, 43>>, <<101, 50, 49, 42>>, <<98, 32, 101, 49, 32, 45, 32>>, <<126>>, <<40, 97, 43, 98, 41, 42>> >>)
      mul == Pick(s, i, 733, << <<>>, <<42, 97>>, <<42, 97>>, <<42, 98, 42, 99>>, <<42, 97, 42, 97>>, <<42, 40, 97, 45, 99, 41>>, <<101, 49, 50>>, <<32, 101, 51, 49>>, <<101, 48>>, <<101, 49, 50, 51>> >>)
      el == Pick(s, i, 734, << <<>>, <<>>, <<>>, <<42, 101, 49>>, <<42, 101, 49, 50>>, <<124, 101, 51, 49>>, <<42, 101, 48, 49, 50, 51>>, <<43, 98, 32, 101, 50>> >>)
  IN pre \o num \o mul \o el
\* shell lines: no line break inside
NoBreak(t) == SelectSeq(t, LAMBDA c : c # 10)
Line(s, i, k) ==
  LET q == i * 40 + k
      w == Rnd(s, q, 700, 12)
      e == Expr(s, q, <<3, 0, 1>>).t
  IN IF w = 0 THEN << >>
     ELSE IF w = 1 THEN SubSeq(<<32, 9, 32, 13>>, 1, 1 + Rnd(s, q, 701, 4))
     ELSE IF w = 2 THEN Sp(s, q, 702) \o <<35>> \o NoBreak(IF Rnd(s, q, 704, 2) = 0 THEN e ELSE Junk(s, q))
     ELSE IF w = 3 THEN Pick(s, q, 705, <<<<46, 98, 114, 101, 97, 107>>, <<46>>, <<32, 46, 120>>, <<46, 98, 114, 101, 97, 107, 32>>, <<9, 46, 46, 46>>>>)
     ELSE IF w = 4 THEN DecLine(s, q)
     ELSE IF w < 9 THEN NoBreak(e) \o (IF Rnd(s, q, 706, 6) = 0 THEN <<13>> ELSE << >>)
     ELSE NoBreak(Junk(s, q))
\* a line among a lot of blank space, a long comment, or a long answer
Wide(s, i, k) ==
  LET q == i * 40 + k
      w == Rnd(s, q, 720, 6)
      n == Pick(s, q, 721, <<62, 126, 254, 255, 256, 300, 511, 1022, 1023, 1024, 1100>>)
  IN CASE w = 0 -> Rep(32, n) \o <<97>>
       [] w = 1 -> <<35>> \o Rep(97, n)
       [] w = 2 -> <<50, 101, 49>> \o Rep(32, n) \o <<43, 97>>
       [] w = 3 -> Rep(32, n)
       [] w = 4 -> Rep(97, n)
       [] OTHER -> <<97, 43>> \o Rep(98, n)
Script(s, i) ==
  IF i % 20 = 7 THEN [k \in 1..(2 + Rnd(s, i, 710, 4)) |-> IF k % 2 = 1 THEN Wide(s, i, k) ELSE Line(s, i, k)]
  ELSE IF i % 40 = 18 THEN [k \in 1..(40 + Rnd(s, i, 710, 110)) |->        \* many short lines
                            IF Rnd(s, i, 760 + k, 4) = 0 THEN Pick(s, i, 960 + k, <<<< >>, <<32>>, <<35, 97>>, <<46, 98, 114, 101, 97, 107>>, <<41>>, <<101, 52>>>>)
                            ELSE <<97 + Rnd(s, i, 1160 + k, 26), 43, 49 + Rnd(s, i, 1360 + k, 9)>>]
  ELSE IF i % 10 = 9 THEN [k \in 1..20 |-> DecLine(s, i * 40 + k)]
  ELSE [k \in 1..Rnd(s, i, 710, 16) |-> Line(s, i, k)]
\* long flat texts: a sum of products, or one operator throughout
Term_(s, i, k) == LET w == Rnd(s, i, 8000 + 3 * k, 7)
                      el == <<101>> \o Pick(s, i, 8001 + 3 * k, <<<<48>>, <<49>>, <<50>>, <<51>>, <<49, 50>>, <<50, 49>>, <<51, 49>>, <<48, 49, 50>>, <<49, 50, 51>>, <<48, 49, 50, 51>>>>)
                  IN CASE w = 0 -> <<50>> [] w = 1 -> <<97 + Rnd(s, i, 8002 + 3 * k, 5)>> [] w = 2 -> <<51>> \o el
                       [] w = 3 -> <<98, 32>> \o el [] w = 4 -> <<45>> \o el [] OTHER -> el
Unit1(s, i, k) == LET w == Rnd(s, i, 8000 + 3 * k, 4)
                  IN CASE w = 0 -> <<97 + Rnd(s, i, 8002 + 3 * k, 3)>> [] w = 1 -> <<45, 49>> [] OTHER -> <<101, 49 + Rnd(s, i, 8001 + 3 * k, 3)>>
\* a sum over many different names, some of them more than once
Many(s, i) ==
  LET n == Pick(s, i, 90, <<20, 30, 50, 70>>)
      nm(k) == LET q == IF Rnd(s, i, 6000 + k, 9) = 0 THEN Rnd(s, i, 6300 + k, k) ELSE k
               IN <<118, 48 + (q % 10)>> \o (IF q \div 10 = 0 THEN << >> ELSE <<97 + (q \div 10)>>)
      pre(k) == Pick(s, i, 6600 + k, <<<<43>>, <<45>>, <<43, 50, 42>>, <<45, 51, 42>>>>)
      f[k \in 1..n] == IF k = 1 THEN nm(1) ELSE f[k - 1] \o pre(k) \o nm(k)
  IN IF Rnd(s, i, 89, 2) = 0 THEN f[n] ELSE <<40>> \o f[n] \o <<41, 42, 101, 49>>
Chain(s, i) ==
  LET n == Pick(s, i, 90, <<18, 33, 40, 65, 66, 90>>)
      one == Rnd(s, i, 91, 3) = 0
      o(k) == IF one THEN Pick(s, i, 92, <<42, 42, 43, 45>>) ELSE Pick(s, i, 9000 + k, <<43, 45, 43, 45, 43, 42, 94, 124>>)
      f[k \in 1..n] == IF k = 1 THEN Term_(s, i, 1)
                       ELSE f[k - 1] \o Sp(s, i, 7000 + 2 * k) \o <<o(k)>> \o (IF one /\ o(k) = 42 THEN Unit1(s, i, k) ELSE Term_(s, i, k))
  IN IF i % 8 = 5 THEN Many(s, i) ELSE f[n]
\* every sequence of three operators between operands for which every grouping shows
Ops6 == <<43, 45, 42, 94, 38, 124>>
A4(x) == [k \in 1..Len(x) |-> x[k]]
L4(num, el) == [t |-> "lit", num |-> num, id |-> << >>, el |-> el]
Sum(xs) == LET f[k \in 1..Len(xs)] == IF k = 1 THEN xs[1] ELSE [t |-> "bin", c |-> 43, x |-> f[k - 1], y |-> xs[k]] IN f[Len(xs)]
Opnd == << Sum(<<L4(<<50>>, <<1>>), L4(<<51>>, <<2>>), L4(<<53>>, <<1, 2>>), L4(<<>>, <<0, 1>>), L4(<<50>>, <<1, 2, 3>>)>>),
           Sum(<<L4(<<52>>, <<>>), L4(<<>>, <<1>>), L4(<<50>>, <<2, 1>>), L4(<<>>, <<0, 2, 3>>), L4(<<51>>, <<3>>), L4(<<>>, <<1, 0, 3>>)>>),
           Sum(<<L4(<<>>, <<2>>), L4(<<>>, <<3>>), L4(<<55>>, <<1, 2, 3>>), L4(<<50>>, <<0>>), L4(<<>>, <<3, 1>>), L4(<<>>, <<0, 1, 2, 3>>)>>),
           Sum(<<L4(<<51>>, <<0>>), L4(<<>>, <<2, 3>>), L4(<<50>>, <<1>>), L4(<<>>, <<0, 1, 2>>), L4(<<49, 48>>, <<>>)>>) >>
Pre == << <<>>, <<45>>, <<126>>, <<45, 126>>, <<43>> >>
Prec(s, i) ==
  LET o == <<Ops6[1 + ((i - 1) % 6)], Ops6[1 + (((i - 1) \div 6) % 6)], Ops6[1 + (((i - 1) \div 36) % 6)]>>
      q(k) == (IF i <= 216 THEN <<>> ELSE Pick(s, i, 900 + k, Pre)) \o Render(Opnd[k], 9, s, i, 100 + k)
  IN q(1) \o <<o[1]>> \o q(2) \o Sp(s, i, 5) \o <<o[2]>> \o q(3) \o <<o[3]>> \o q(4)
VARIABLE done
Row(s, i) ==
  CASE Mode = "expr" -> LET sg == Pick(s, i, 98, Sigs)
                            e == Expr(s, i, sg)
                        IN IF Value(e.t, sg) # Meaning(e.x, sg)
                           THEN Assert(FALSE, <<"the grammar and the syntax trees disagree", e.t, Value(e.t, sg), Meaning(e.x, sg)>>)
                           ELSE [sig |-> sg, text |-> e.t]
    [] Mode = "chain" -> [sig |-> <<3, 0, 1>>, text |-> Chain(s, i)]
    [] Mode = "prec" -> [sig |-> <<3, 0, 1>>, text |-> Prec(s, i)]
    \* every byte value, alone and in company
    [] Mode = "byte" -> [sig |-> <<3, 0, 1>>, text |-> LET b == (i - 1) % 256  k == (i - 1) \div 256
                                                      IN CASE k = 0 -> <<97, b>> [] k = 1 -> <<97, b, 98>> [] k = 2 -> <<b, 97>> [] k = 3 -> <<97, 43, b, 50>>
                                                           [] k = 4 -> <<50, b, 51>> [] k = 5 -> <<101, 49, b, 43, 97>> [] OTHER -> <<40, 97, b, 41>>]
    [] Mode = "junk" -> [sig |-> <<3, 0, 1>>, text |-> Junk(s, i)]
    [] Mode = "shell" -> [lines |-> Script(s, i), nl |-> Rnd(s, i, 99, 3)]
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Row(Seed, i)]) /\ done' = TRUE
=============================================================================
