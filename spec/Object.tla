---- MODULE Object ----
(* Analysis objects built from one parameter dictionary of the user, fitted again and again to records of different
   lengths, grids and kinds, with projections and reconstructions in between.  A fit goes through the steps of the library (reader, number of blocks,
   number of modes, frequency axis, stored parameters).  Checked for all histories: once a fit is complete every attribute is the one of ObjLib for the
   parameters given and the latest record, never one left by an earlier fit or by another object; the parameters a fit
   stored stay those of that fit; the file of coefficients is that of the object's latest projection, and there is none before it.
   Four flawed ways of doing it must be found wrong (EveryFlawSeen): the number of modes reduced in place, lengths added up, one dictionary for all,
   factors of the confidence bounds (which depend on the number of blocks) kept from the first fit. *)
EXTENDS ObjLib, FiniteSets, TLC
CONSTANTS Objs, Overlaps, MaxFits, MaxCalls
Flaws == {"none", "sticky", "adds", "alias", "keeps"}
Params == {[cls |-> c, n |-> 4, ov |-> v, req |-> q, full |-> f] : c \in {"std", "pod"}, v \in Overlaps, q \in {0, 3}, f \in BOOLEAN}
Records == {[nt |-> 8, xs |-> <<3>>, nv |-> 1, cplx |-> FALSE], [nt |-> 21, xs |-> <<2>>, nv |-> 1, cplx |-> TRUE]}
VARIABLES flaw, par, pc, rec, attr, lim, stored, calls, fits, coef, lastc
vars == <<flaw, par, pc, rec, attr, lim, stored, calls, fits, coef, lastc>>
None == [nt |-> 0, kept |-> 0, nb |-> 0, nf |-> 0, cf |-> 0]
Zero == [nt |-> 0, xs |-> <<>>, nv |-> 0, cplx |-> FALSE]
Dict(o) == IF flaw = "alias" THEN CHOOSE q \in Objs : TRUE ELSE o       \* the dictionary an object writes its parameters to
Init == /\ flaw \in Flaws /\ par \in [Objs -> Params]
        /\ pc = [o \in Objs |-> "new"] /\ rec = [o \in Objs |-> Zero] /\ attr = [o \in Objs |-> None]
        /\ lim = [o \in Objs |-> par[o].req]
        /\ stored = [o \in Objs |-> None] /\ calls = 0 /\ fits = 0 /\ coef = [o \in Objs |-> 0] /\ lastc = [o \in Objs |-> 0]
Read(o, d) == /\ fits < MaxFits /\ pc[o] \in {"new", "done"} /\ rec[o] # d
              /\ pc' = [pc EXCEPT ![o] = "blocks"] /\ rec' = [rec EXCEPT ![o] = d] /\ fits' = fits + 1
              /\ attr' = [attr EXCEPT ![o].nt = IF flaw = "adds" THEN @ + d.nt ELSE d.nt]
              /\ UNCHANGED <<flaw, par, lim, stored, calls, coef, lastc>>
CountBlocks(o) == /\ pc[o] = "blocks" /\ pc' = [pc EXCEPT ![o] = "modes"]
                  /\ LET b == (attr[o].nt - par[o].ov) \div (par[o].n - par[o].ov) IN
                     attr' = [attr EXCEPT ![o].nb = b, ![o].cf = IF flaw = "keeps" /\ @ # 0 THEN @ ELSE b]
                  /\ UNCHANGED <<flaw, par, rec, lim, stored, calls, fits, coef, lastc>>
CountModes(o) == LET most == IF par[o].cls = "pod" THEN attr[o].nt ELSE attr[o].nb
                     k == IF lim[o] = 0 \/ lim[o] > most THEN most ELSE lim[o]
                 IN /\ pc[o] = "modes" /\ pc' = [pc EXCEPT ![o] = "axis"]
                    /\ attr' = [attr EXCEPT ![o].kept = k]
                    /\ lim' = IF flaw = "sticky" THEN [lim EXCEPT ![o] = k] ELSE lim
                    /\ UNCHANGED <<flaw, par, rec, stored, calls, fits, coef, lastc>>
Axis(o) == /\ pc[o] = "axis" /\ pc' = [pc EXCEPT ![o] = "store"]
           /\ attr' = [attr EXCEPT ![o].nf = IF par[o].full \/ rec[o].cplx THEN par[o].n ELSE par[o].n \div 2 + 1]
           /\ UNCHANGED <<flaw, par, rec, lim, stored, calls, fits, coef, lastc>>
Store(o) == /\ pc[o] = "store" /\ pc' = [pc EXCEPT ![o] = "done"]
            /\ stored' = [stored EXCEPT ![Dict(o)] = attr[o]]
            /\ UNCHANGED <<flaw, par, rec, attr, lim, calls, fits, coef, lastc>>
Project(o) == /\ pc[o] = "done" /\ calls < MaxCalls /\ calls' = calls + 1
              /\ coef' = [coef EXCEPT ![o] = calls + 1] /\ lastc' = [lastc EXCEPT ![o] = calls + 1]
              /\ UNCHANGED <<flaw, par, pc, rec, attr, lim, stored, fits>>
Next == \E o \in Objs : \/ \E d \in Records : Read(o, d)
                        \/ CountBlocks(o) \/ CountModes(o) \/ Axis(o) \/ Store(o) \/ Project(o)
Spec == Init /\ [][Next]_vars
Right(o, a) == LET s == Says(par[o], rec[o]) IN
  a.nt = s.nt /\ a.kept = s.kept /\ a.nb = Blocks(par[o], rec[o]) /\ a.nf = Freqs(par[o], rec[o]) /\ a.cf = a.nb
Wrong == \E o \in Objs : pc[o] = "done" /\ ~(Right(o, attr[o]) /\ stored[o] = attr[o])
Note == /\ (Wrong /\ flaw = "sticky" => TLCSet(1, 1))
        /\ (Wrong /\ flaw = "adds" => TLCSet(2, 1))
        /\ (Wrong /\ flaw = "alias" => TLCSet(3, 1))
        /\ (Wrong /\ flaw = "keeps" => TLCSet(4, 1))
Described == flaw = "none" => ~Wrong
FileLatest == \A o \in Objs : coef[o] = lastc[o]
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)
EveryFlawSeen == \A k \in 1..4 : TLCGet(k) = 1
====
