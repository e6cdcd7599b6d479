---- MODULE T_Spod ----
EXTENDS SpodRef, TraceLib
VARIABLES l, bad
Fails(r) == CASE r.want = "eig" -> EigVerdict(r) [] r.want = "mode" -> ModeVerdict(r) [] OTHER -> EigVerdict(r) \cup ModeVerdict(r)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
