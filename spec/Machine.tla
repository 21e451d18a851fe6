-------------------------------- MODULE Machine -------------------------------
(* A machine whose registers hold Klein objects and whose instructions are the  *)
(* operations of the catalogue: the histories of calls a program makes.  A      *)
(* ghost records, for each register that holds a motion, the elementary motions *)
(* it was composed of.                                                          *)
EXTENDS Klein
RT == <<"plane", "point", "dir", "line", "ideal", "branch", "rotor", "trans", "motor", "dual", "scalar">>
NR == 3                                        \* registers per type
MotionT == {"rotor", "trans", "motor"}
InRT(T) == \E k \in 1..Len(RT) : RT[k] = T
HasReg(o) == InRT(o.r) /\ \A k \in 1..Len(o.a) : InRT(o.a[k])
Plain(o) == HasReg(o) /\ ~Inexact(o) /\ ~UnitOp(o)
Some(ops) == SelectSeq(ops, Plain)
Comparts == <<"motor_comp", "line_comp", "plane_comp", "plane_ptr", "dir_ptr", "ideal_comp", "branch_comp">>
MovingOps == Some(SelectSeq(GPOps, LAMBDA o : o.a[1] \in MotionT /\ o.a[2] \in MotionT)
                  \o RotorSwOps \o TransSwOps \o MotorSwOps \o ReflOps
                  \o SelectSeq(ConvOps, LAMBDA o : o.n \in {"motor_of_rotor", "motor_of_trans", "motor_set_rotor", "motor_set_trans"}))
OtherOps == Some(GPOps \o ExtOps \o RegOps \o DotOps \o ProjOps \o DualOps
                 \o SelectSeq(VecOps, LAMBDA o : o.f \notin {"conv", "second"})
                 \o SelectSeq(ConvOps, LAMBDA o : o.n \in {"line_of_ideal", "line_of_branch"}))
MachineOps == MovingOps \o OtherOps
OpNo == [n \in {MachineOps[k].n : k \in 1..Len(MachineOps)} |-> CHOOSE k \in 1..Len(MachineOps) : MachineOps[k].n = n]

\* files: type -> register -> components;   ghosts: type -> register -> factors
ZeroFile == [T \in {RT[k] : k \in 1..Len(RT)} |-> [d \in 1..NR |-> [j \in 1..Dim(T) |-> 0]]]
ZeroGhost == [T \in MotionT |-> [d \in 1..NR |-> << >>]]

\* instructions: [op, d, s, t, v]
Operands(f, o, i) == IF Len(o.a) = 1 THEN <<f[o.a[1]][i.s]>> ELSE <<f[o.a[1]][i.s], f[o.a[2]][i.t]>>
ResultOf(f, i) == IF i.op = "set" THEN i.v ELSE LET o == MachineOps[OpNo[i.op]] IN Result(o, Operands(f, o, i))
TypeOf(i) == IF i.op = "set" THEN i.T ELSE MachineOps[OpNo[i.op]].r
Exec(f, i) == TLCEval([f EXCEPT ![TypeOf(i)][i.d] = ResultOf(f, i)])
Legal(f, i) == i.op = "set" \/ LET o == MachineOps[OpNo[i.op]] IN Defined(o, Operands(f, o, i))

Factors(f, g, i) ==
  LET own == <<[T |-> TypeOf(i), v |-> ResultOf(f, i)]>>
  IN IF i.op = "set" THEN own
     ELSE LET o == MachineOps[OpNo[i.op]]
              h == IF o.f = "gp" /\ o.a[1] \in MotionT /\ o.a[2] \in MotionT
                   THEN g[o.a[1]][i.s] \o g[o.a[2]][i.t]
                   ELSE IF o.f = "conv" /\ o.a[1] \in MotionT THEN g[o.a[1]][i.s]
                   ELSE IF o.f = "setconv" THEN g[o.a[2]][i.t]
                   ELSE << >>
          IN IF h = << >> \/ Len(h) > 12 THEN own ELSE h
ExecGhost(f, g, i) == IF TypeOf(i) \in MotionT THEN TLCEval([g EXCEPT ![TypeOf(i)][i.d] = Factors(f, g, i)]) ELSE g

\* the composed motion acts as its factors one after another, the last first
RECURSIVE ActAll(_, _)
ActAll(h, x) == IF h = << >> THEN x
                ELSE ActAll(SubSeq(h, 1, Len(h) - 1), Sandwich(ToMV(h[Len(h)].T, h[Len(h)].v), x))
Probes == <<ToMV("point", <<1, 1, -2, 3>>), ToMV("plane", <<2, -1, 0, 1>>), ToMV("line", <<0, 1, 2, -1, 0, 1>>)>>
ActsAsFactors(T, v, h) == h = << >> \/ \A p \in 1..Len(Probes) : Sandwich(ToMV(T, v), Probes[p]) = ActAll(h, Probes[p])
=============================================================================
