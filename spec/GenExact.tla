------------------------------- MODULE GenExact ------------------------------
(* TLC evaluates the case set of one operation group and writes it out.       *)
EXTENDS Cases, Json, IOUtils
CONSTANTS Group, Seed, N
OpsOf == [gp |-> GPOps, ext |-> ExtOps, reg |-> RegOps, dot |-> DotOps,
          swr |-> RotorSwOps \o ArraySwOps("rotor"), swt |-> TransSwOps, swm |-> MotorSwOps \o ArraySwOps("motor"),
          refl |-> ReflOps, proj |-> ProjOps, dual |-> DualOps, vec |-> VecOps, conv |-> ConvOps, mat |-> MatOps, glsl |-> GlslOps, capi |-> CapiOps, all |-> ExactOps, pure |-> ExactOps,
          \* results of a type that has operator==
          compared |-> SelectSeq(GPOps \o ExtOps \o RegOps \o DotOps \o RotorSwOps \o TransSwOps \o MotorSwOps
                                 \o ReflOps \o ProjOps \o DualOps \o SelectSeq(VecOps, LAMBDA o : o.f # "conv") \o ConvOps,
                                 LAMBDA o : o.r \in {"plane", "line", "rotor", "motor"})]
Ops == OpsOf[Group]
RECURSIVE AllCases(_)
AllCases(k) == IF k = 0 THEN << >> ELSE AllCases(k - 1) \o (IF Group = "pure" THEN RandCases(Ops[k], Seed + 97 * k, N) ELSE CasesOf(Ops[k], Seed + 97 * k, N))
VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ ndJsonSerialize(IOEnv.OUT, AllCases(Len(Ops)))
        /\ done' = TRUE
=============================================================================
