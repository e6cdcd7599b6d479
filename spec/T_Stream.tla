---- MODULE T_Stream ----
(* Records of streaming fits: kind full (every update fits into the basis), step (state of a prefix and of the whole record),
   cmp (the same record delivered otherwise), stop (only shape and orthonormality). *)
EXTENDS StreamRef, TraceLib
C == INSTANCE CmpLib
VARIABLES l, bad
Fails(r) == IF r.kind = "cmp" THEN C!CmpFails(r) ELSE Verdict(r)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
