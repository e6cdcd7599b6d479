---- MODULE MpiModel ----
(* The designed protocols (MpiProgs) under MpiSem, for 1..NRanks ranks and every interleaving: the library's protocols always
   finish and never let two ranks meet at one file, and each flawed variant is seen to fail (statically or in some schedule). *)
EXTENDS MpiSem
Seen(k) == k \in DOMAIN Scens /\ TLCGet(k) = 1
Note == /\ (pc = [r \in Ranks |-> 1] /\ Match(sc) # {}) => TLCSet(sc, 1)
        /\ stop => TLCSet(sc, 1)
MInit == Init /\ (sc = 1 /\ mode = "sync" => \A k \in DOMAIN Scens : TLCSet(k, 0))
MSpec == MInit /\ [][Next]_vars /\ WF_vars(Next)

Good == IF pc = [r \in Ranks |-> 1] THEN ~R.bad => Match(sc) = {} ELSE ~R.bad => ~stop
EveryFlawSeen == \A k \in DOMAIN Scens : Scens[k].bad = (TLCGet(k) = 1) \/ (PrintT(<<"MISSED", Scens[k].id, TLCGet(k)>>) /\ FALSE)
====
