---- MODULE BlockStore ----
(* The store of FFT blocks of one result directory.  Files are <<block, freq>>; a file is absent or holds <<record, run>>.
   A saving run removes the old files, then writes every file under a temporary name and renames it; a run can be interrupted
   between any two file operations.  A reusing run decides on rank 0 whether all files are there, tells the other ranks, and
   then either loads or computes.  Ranks act in any order.  The user reuses only for the record of the last saving run
   (complete or interrupted).  Invariant: what a run uses as blocks is its own record's blocks, the ranks agree on the
   decision, and no rank is left waiting. *)
EXTENDS VLib, Json
CONSTANTS Blks, Frqs, Recs, Ranks, D, Emitting
VARIABLES disk, tmp, last, run, hist
vars == <<disk, tmp, last, run, hist>>
Files == Blks \X Frqs
None == 0
Idle == [ph |-> "idle", d |-> 0, save |-> FALSE, reuse |-> FALSE, todo |-> {}, dec |-> "?", told |-> {}, used |-> {}, crash |-> FALSE]
Init == disk = [f \in Files |-> None] /\ tmp = None /\ last = 0 /\ run = Idle /\ hist = <<>>
FirstFile(S) == CHOOSE f \in S : \A g \in S : f[1] < g[1] \/ (f[1] = g[1] /\ f[2] <= g[2])
Begin(d, sv, ru, n, cr) ==
  /\ run.ph = "idle" /\ Len(hist) < D /\ (sv \/ ru) /\ (ru /\ last # 0 => last = d)
  /\ run' = [Idle EXCEPT !.ph = IF ru THEN "decide" ELSE "clean", !.d = d, !.save = sv, !.reuse = ru, !.todo = Files, !.crash = (cr > 0)]
  /\ last' = last
  /\ hist' = Append(hist, [a |-> "fit", d |-> d, save |-> sv, reuse |-> ru, n |-> n, crash |-> cr])
  /\ UNCHANGED <<disk, tmp>>
Decide == /\ run.ph = "decide" /\ run.dec = "?"
          /\ run' = [run EXCEPT !.dec = IF \A f \in Files : disk[f] # None THEN "load" ELSE "compute", !.told = {0}]
          /\ UNCHANGED <<disk, tmp, last, hist>>
Tell == /\ run.ph = "decide" /\ run.dec # "?" /\ run.told # Ranks /\ (\E r \in Ranks \ run.told : run' = [run EXCEPT !.told = @ \cup {r}])
        /\ UNCHANGED <<disk, tmp, last, hist>>
Load == /\ run.ph = "decide" /\ run.told = Ranks /\ run.dec = "load"
        /\ run' = [run EXCEPT !.used = {disk[f] : f \in Files}, !.ph = "done"] /\ UNCHANGED <<disk, tmp, last, hist>>
Compute == /\ run.ph = "decide" /\ run.told = Ranks /\ run.dec = "compute"
           /\ run' = [run EXCEPT !.ph = IF run.save THEN "clean" ELSE "done", !.used = {run.d}] /\ UNCHANGED <<disk, tmp, last, hist>>
Clean == /\ run.ph = "clean"
         /\ (\E S \in {Files} \cup {{f \in Files : f # g} : g \in Files} \cup {{}} :    \* an interruption may leave some
               /\ (S # Files => run.crash)
               /\ last' = (IF S = {} THEN last ELSE run.d)       \* nothing touched: still the store of the previous record
               /\ disk' = [f \in Files |-> IF f \in S THEN None ELSE disk[f]]
               /\ run' = IF S = Files THEN [run EXCEPT !.ph = "write", !.used = {run.d}] ELSE Idle)
         /\ tmp' = None /\ UNCHANGED hist
WriteTmp == /\ run.ph = "write" /\ run.todo # {} /\ tmp = None /\ tmp' = run.d /\ UNCHANGED <<disk, last, run, hist>>
Rename == /\ run.ph = "write" /\ tmp # None
          /\ disk' = [disk EXCEPT ![FirstFile(run.todo)] = tmp] /\ tmp' = None /\ run' = [run EXCEPT !.todo = @ \ {FirstFile(run.todo)}]
          /\ UNCHANGED <<last, hist>>
WriteDone == run.ph = "write" /\ run.todo = {} /\ run' = [run EXCEPT !.ph = "done"] /\ UNCHANGED <<disk, tmp, last, hist>>
Crash == run.ph = "write" /\ run.crash /\ run' = Idle /\ UNCHANGED <<disk, tmp, last, hist>>
End == run.ph = "done" /\ run' = Idle /\ UNCHANGED <<disk, tmp, last, hist>>
\* the user deletes some files
Delete == /\ run.ph = "idle" /\ Len(hist) < D /\ Len(hist) > 0 /\ hist[Len(hist)].a = "fit"
          /\ (\E S \in (IF Emitting THEN {RandomElement(SUBSET Files), {RandomElement(Files)}} ELSE SUBSET Files) : S # {} /\ disk' = [f \in Files |-> IF f \in S THEN None ELSE disk[f]]
                 /\ hist' = Append(hist, [a |-> "delete", files |-> S]))
          /\ UNCHANGED <<tmp, last, run>>
Start == \E d \in Recs, sv, ru \in BOOLEAN, n \in (IF Emitting THEN {RandomElement(0..Cardinality(Ranks))} ELSE 0..Cardinality(Ranks)),
            cr \in (IF Emitting THEN {0, RandomElement(1..(2 * Cardinality(Files)))} ELSE 0..(2 * Cardinality(Files))) :
            (IF Emitting THEN TRUE ELSE n = 0 /\ cr \in {0, 1}) /\ (cr > 0 => sv) /\ Begin(d, sv, ru, n, cr)
Next == Start \/ Decide \/ Tell \/ Load \/ Compute \/ Clean \/ WriteTmp \/ Rename \/ WriteDone \/ Crash \/ End \/ Delete
Spec == Init /\ [][Next]_vars
OwnBlocks == run.ph \in {"done", "write"} => run.used = {run.d}
Emit == ~Emitting \/ run.ph # "idle" \/ Len(hist) < D \/ PrintT("HIST " \o ToJson(hist))
====
