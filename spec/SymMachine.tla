------------------------------ MODULE SymMachine ------------------------------
(* Programs over monomial, polynomial and multivector registers.               *)
(* An instruction is [op, d, s, t, v, c].                                       *)
EXTENDS Sym
NM == 4
NX == 3
InitRegs == [m |-> [k \in 1..NM |-> One_], p |-> [k \in 1..NM |-> Empty], x |-> [k \in 1..NX |-> Empty]]
ProdName == [xmul |-> "mul", ximul |-> "mul", xext |-> "ext", xiext |-> "ext", xreg |-> "reg", xireg |-> "reg",
             xdot |-> "dot", xidot |-> "dot"]
MonOps == {"mclr", "mpush", "mcpy", "mmul", "mimul"}
PolyOps == {"pclr", "ppush", "padd", "piadd", "pmul", "pimul", "pneg", "pnegr"}
MVOps == {"xclr", "xpush", "xneg", "xnegr", "xrev", "xrevr", "xadd", "xiadd", "xisub"} \cup DOMAIN ProdName
KindOf(op) == IF op \in MonOps THEN "m" ELSE IF op \in PolyOps THEN "p" ELSE IF op \in MVOps THEN "x" ELSE "none"
\* the value the destination register holds afterwards, in the algebra of signature sg
Effect(sg, r, i) ==
  LET m == r.m  p == r.p  x == r.x
  IN CASE i.op = "mclr" -> One_
       [] i.op = "mpush" -> MonPush(m[i.d], i.v, i.c)
       [] i.op = "mcpy" -> m[i.s]
       [] i.op = "mmul" -> MonMul(m[i.s], m[i.t])
       [] i.op = "mimul" -> MonMul(m[i.d], m[i.s])
       [] i.op = "pclr" -> Empty
       [] i.op = "ppush" -> PolyPush(p[i.d], m[i.s], i.c)
       [] i.op = "padd" -> PolyAdd(p[i.s], p[i.t])
       [] i.op = "piadd" -> PolyAdd(p[i.d], p[i.s])
       [] i.op = "pmul" -> PolyMul(p[i.s], p[i.t])
       [] i.op = "pimul" -> PolyMul(p[i.d], p[i.s])
       [] i.op \in {"pneg", "pnegr"} -> PolyNeg(p[i.s])
       [] i.op = "xclr" -> Empty
       [] i.op = "xpush" -> MVPush(x[i.d], i.c, p[i.s])
       [] i.op \in {"xneg", "xnegr"} -> MVNeg(x[i.s])
       [] i.op \in {"xrev", "xrevr"} -> MVRev(x[i.s])
       [] i.op = "xadd" -> MVAdd(x[i.s], x[i.t])
       [] i.op = "xiadd" -> MVAdd(x[i.d], x[i.s])
       [] i.op = "xisub" -> MVSub(x[i.d], x[i.s])
       [] i.op \in {"xmul", "xext", "xreg", "xdot"} -> MVProd(ProdName[i.op], sg, x[i.s], x[i.t])
       [] i.op \in {"ximul", "xiext", "xireg", "xidot"} -> MVProd(ProdName[i.op], sg, x[i.d], x[i.s])
Exec(sg, r, i) == IF KindOf(i.op) = "none" THEN r
                  ELSE TLCEval([r EXCEPT ![KindOf(i.op)][i.d] = Effect(sg, r, i)])
\* what an observation of monomials must report: equal, less, (equal hashes if equal), degree
Observed(r, i, o) ==
  LET a == r.m[i.s]  b == r.m[i.t]
  IN IF i.op = "cmp" THEN /\ o[1] = (IF a = b THEN 1 ELSE 0)
                          /\ o[2] = (IF MonLess(a, b) THEN 1 ELSE 0)
                          /\ (a = b => o[3] = 1)
     ELSE o[1] = TotalDegree(a)
\* a dumped register: <<kind, number, content, printed bytes>>
PrintDims(sg) == sg[1] + sg[2] + sg[3] <= 9
Shows(sg, r, q) ==
  CASE q[1] = "m" -> q[3] = MonSeq(r.m[q[2]])
    [] q[1] = "p" -> q[3] = PolySeq(r.p[q[2]]) /\ (PrintablePoly(r.p[q[2]]) => q[4] = PolyStr(r.p[q[2]]))
    [] q[1] = "x" -> q[3] = MVSeq(r.x[q[2]]) /\ (PrintableMV(r.x[q[2]]) /\ PrintDims(sg) => q[4] = MVStr(r.x[q[2]]))
=============================================================================
