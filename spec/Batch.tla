--------------------------------- MODULE Batch --------------------------------
(* Applying a motion to arrays.  The state is an array of entities; a step      *)
(* applies one motion to n consecutive elements from src and stores them from   *)
(* dst on, in place (src = dst) or disjointly.  Every other element stays.      *)
EXTENDS Klein
MotionTypes == <<"rotor", "motor">>
EntityTypes == <<"plane", "line", "point", "dir">>
Legal(st, m) == /\ st.n >= 0 /\ st.src >= 0 /\ st.dst >= 0
                /\ st.src + st.n <= m /\ st.dst + st.n <= m
                /\ st.src = st.dst \/ st.src + st.n <= st.dst \/ st.dst + st.n <= st.src
Apply(M, T, v, w) == FromMV(T, Sandwich(ToMV(M, v), ToMV(T, w)))
AfterApp(M, T, mem, st) ==
  TLCEval([k \in 1..Len(mem) |->
     IF k - st.dst \in 1..st.n THEN Apply(M, T, st.v, mem[k - st.dst + st.src]) ELSE mem[k]])
=============================================================================
