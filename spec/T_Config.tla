---- MODULE T_Config ----
(* Observed fits: c configuration, outs outcome per rank ("ok" or "raised"), files left in the result folder;
   observed configuration files: want and got, sequences of <<key, value>>. *)
EXTENDS Config, TraceLib
VARIABLES l, bad
Need == {"eigs_freq.npz", "weights.npy", "ltm_modes.npy", "params_modes.yaml"}
Tail1(r) == {r.base[i] : i \in 1..Len(r.base)}
Fails(r) ==
  IF r.kind = "file" THEN
     When(SetOfSeq(r.got) = SetOfSeq(r.want) /\ Len(r.got) = Len(r.want), "keys and values read are those of the file")
  ELSE IF Accept(r.c) THEN
     When(\A i \in DOMAIN r.outs : r.outs[i] = "ok", "valid configuration is accepted")
     \cup When((\E i \in DOMAIN r.outs : r.outs[i] # "ok") \/ Need \subseteq Tail1(r), "accepted configuration leaves its results")
  ELSE When(\A i \in DOMAIN r.outs : r.outs[i] = "raised", "invalid configuration is refused on every rank")
     \cup When(r.nfiles = 0, "refused configuration leaves no result file")
TInit == l = 1 /\ bad = {} /\ c = 0 /\ old = {} /\ did = "trace"
TNext == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, x>> : x \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
        /\ UNCHANGED <<c, old, did>>
TSpec == TInit /\ [][TNext]_<<l, bad, c, old, did>>
Done == Consumed
====
