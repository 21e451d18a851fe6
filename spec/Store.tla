--------------------------------- MODULE Store --------------------------------
(* Comparison and storage.  A buffer is a sequence of float slots; storing an  *)
(* object writes exactly its slots at an offset, loading reads them and leaves *)
(* the buffer alone.  Offsets are arbitrary: a float buffer has no alignment   *)
(* beyond that of float.                                                       *)
EXTENDS Klein

\* slot layouts; 0 is a slot the type does not define (loaded as zero)
Slots == [
  plane  |-> <<1, 2, 3, 4>>,
  point  |-> <<1, 2, 3, 4>>,
  rotor  |-> <<1, 2, 3, 4>>,
  branch |-> <<0, 1, 2, 3>>,
  trans  |-> <<0, 1, 2, 3>>,
  dir    |-> <<0, 1, 2, 3>>,
  motor  |-> <<1, 2, 3, 4, 8, 5, 6, 7>> ]
StoreT == <<"point", "rotor", "branch">>
LoadT  == <<"plane", "planeptr", "point", "rotor", "trans", "dir", "motor">>
BaseT(t) == IF t = "planeptr" THEN "plane" ELSE t
EqT    == <<"plane", "line", "rotor", "motor">>

\* buffer after storing v of type t at offset off (0-based); branch slot 0 is free
StoreOK(t, v, off, before, after) ==
  LET s == Slots[t]
  IN /\ Len(after) = Len(before)
     /\ \A j \in 1..Len(before) :
          LET k == j - off
          IN IF k \in 1..Len(s)
             THEN s[k] = 0 \/ after[j] = v[s[k]]
             ELSE after[j] = before[j]
LoadOK(t, off, before, after, v) ==
  LET s == Slots[BaseT(t)]
  IN /\ after = before
     /\ \A k \in 1..Len(s) : s[k] = 0 \/ v[s[k]] = before[off + k]

Equal(a, b) == \A i \in 1..Len(a) : a[i] = b[i]
Within(a, b, eps) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) < eps

Bool(x) == IF x THEN 1 ELSE 0
\* whichever of v, -v has a nonnegative scalar part
ConstrainOK(v, r) ==
  /\ r[1] >= 0
  /\ r = v \/ r = [i \in 1..Len(v) |-> -v[i]]
  /\ v[1] > 0 => r = v

\* one observation e of the implementation
ObsOK(e) ==
  CASE e.k = "eq"     -> e.r = <<Bool(Equal(e.a, e.b))>>
    [] e.k = "approx" -> e.r = <<Bool(Within(e.a, e.b, e.eps))>>
    [] e.k = "store"  -> StoreOK(e.T, e.a, e.off, e.b, e.r)
    [] e.k = "load"   -> LET n == Len(e.b)
                         IN LoadOK(e.T, e.off, e.b, SubSeq(e.r, 1, n), SubSeq(e.r, n + 1, Len(e.r)))
    [] e.k = "rebuilt" -> e.r # << >> /\ \A i \in 1..Len(e.r) : e.r[i] = 1
    [] e.k \in {"constrain", "constrained"} ->
         LET n == Len(e.a)
         IN Len(e.r) = 2 * n /\ ConstrainOK(e.a, SubSeq(e.r, 1, n)) /\ SubSeq(e.r, n + 1, 2 * n) = SubSeq(e.r, 1, n)
=============================================================================
