---- MODULE Config ----
(* Which configurations of a batch or streaming fit are accepted.  The design model walks from an arbitrary configuration by
   repairing one offending value at a time and checks that a configuration is accepted exactly when nothing offends, that a repair
   never makes another value offend, and that every configuration reaches an accepted one by repairs. *)
EXTENDS VLib
Overlap(c) == CeilDiv(c.n * c.ovl, 100)
NBlocks(c) == (c.nt - Overlap(c)) \div (c.n - Overlap(c))
\* offending conditions
OffBlock(c) == c.n < 4
OffOverlap(c) == Overlap(c) > c.n - 1
OffShort(c) == ~OffOverlap(c) /\ (c.nt < Overlap(c) \/ NBlocks(c) < 2)
OffMean(c) == c.mean \notin {"longtime", "blockwise", "zero"}
OffWeights(c) == c.wcount # c.size
OffShape(c) == c.diff
OffBoth(c) == c.disk /\ c.disk2
OffSerial2(c) == c.disk2 /\ ~c.comm
OffArray2(c) == c.disk2 /\ ~c.files /\ ~c.streaming
OffFlat(c) == c.files /\ c.disk
OffFiles(c) == c.files /\ (~c.comm \/ c.novars \/ c.missing \/ c.nonfinite \/ (c.nc /\ c.nt < 9))
Offends(c) == {x \in {"block", "overlap", "short", "mean", "weights", "shape", "both", "serial2", "array2", "flat", "files"} :
   CASE x = "block" -> OffBlock(c) [] x = "overlap" -> OffOverlap(c) [] x = "short" -> OffShort(c) [] x = "mean" -> OffMean(c)
     [] x = "weights" -> OffWeights(c) [] x = "shape" -> OffShape(c) [] x = "both" -> OffBoth(c) [] x = "serial2" -> OffSerial2(c)
     [] x = "array2" -> OffArray2(c) [] x = "flat" -> OffFlat(c) [] x = "files" -> OffFiles(c)}
Accept(c) == Offends(c) = {}
\* ---- design model
VARIABLES c, old, did
Init == /\ c \in [n : {1, 3, 4, 6}, ovl : {0, 50, 90, 100}, nt : {0, 5, 8, 12}, mean : {"longtime", "other"}, wcount : {11, 12}, size : {12}, diff : BOOLEAN,
                  disk : BOOLEAN, disk2 : BOOLEAN, comm : BOOLEAN, files : BOOLEAN, nc : {TRUE}, novars : BOOLEAN, missing : {FALSE}, nonfinite : {FALSE}, streaming : {FALSE}]
        /\ old = Offends(c) /\ did = "none"
Repair(x) ==
  CASE x = "block" -> [c EXCEPT !.n = 4] [] x = "overlap" -> [c EXCEPT !.ovl = 0] [] x = "short" -> [c EXCEPT !.nt = 3 * c.n + 9]
    [] x = "mean" -> [c EXCEPT !.mean = "zero"] [] x = "weights" -> [c EXCEPT !.wcount = c.size] [] x = "shape" -> [c EXCEPT !.diff = FALSE]
    [] x = "both" -> [c EXCEPT !.disk2 = FALSE] [] x = "serial2" -> [c EXCEPT !.disk2 = FALSE] [] x = "array2" -> [c EXCEPT !.disk2 = FALSE]
    [] x = "flat" -> [c EXCEPT !.disk = FALSE] [] x = "files" -> [c EXCEPT !.comm = TRUE, !.novars = FALSE, !.nt = Max(c.nt, 9)]
Next == \E x \in Offends(c) : c' = Repair(x) /\ old' = Offends(c) /\ did' = x
Spec == Init /\ [][Next]_<<c, old, did>>
\* repairing a value removes its offence; it can reveal only that the record is too short for the repaired block length
NoNew == did # "none" => did \notin Offends(c) /\ Offends(c) \ old \subseteq {"short"}
Reaches == ENABLED Next \/ Accept(c)
====
