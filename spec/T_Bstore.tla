---- MODULE T_Bstore ----
(* Replay of a history of BlockStore: every run that completes gives the results of a plain fit (CmpLib), no run raises or hangs unless
   it was interrupted on purpose, and a run that was told to save leaves one file per block and frequency. *)
EXTENDS CmpLib, TraceLib
VARIABLES l, bad
Fails(r) == When(~r.err, "the run completes") \cup
  (IF r.err \/ r.crashed THEN {} ELSE CmpFails(r.cmp) \cup When(~r.save \/ r.nfiles = r.cmp.nb[1] * r.cmp.nf[1], "one block file per block and frequency"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
