---- MODULE T_Spmd ----
(* One record = a reference fit and another fit of the same input; see CmpLib. *)
EXTENDS CmpLib, TraceLib
VARIABLES l, bad
Fails(r) == CmpFails(r)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
