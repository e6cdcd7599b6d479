---- MODULE T_Mpi ----
(* Programs recorded from the library under MpiSem: verdicts are printed as BAD <id> <clause>. *)
EXTENDS MpiSem, Json
Say(c) == PrintT("BAD " \o ToJson([id |-> Scens[sc].id, c |-> c]))
Where(r) == IF AtEnd(r) THEN "end" ELSE LET o == Op(r) IN IF o.k = "fs" THEN o.act \o " " \o ToString(o.path) ELSE o.name \o " #" \o ToString(o.seq)
Positions == [r \in Ranks |-> Where(r)]
Report == /\ (pc = [r \in Ranks |-> 1] /\ \A r \in Ranks : inn[r] = 0) /\ mode = "sync" => (Match(sc) = {} \/ \A c \in Match(sc) : Say(c))
          /\ stop => IF Stuck THEN Say("ranks wait for each other: " \o ToString(Positions))
                     ELSE Say("one rank may use a file or directory before or while another changes it: " \o ToString([r \in {q \in Ranks : AtFs(q)} |-> Where(r)]))
====
