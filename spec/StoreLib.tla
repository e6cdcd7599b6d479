---- MODULE StoreLib ----
(* Where a fit puts its results: SPOD results are keyed by block length, overlap and number of blocks (here: parameter set and
   length of the record), POD results by the number of stored modes. *)
EXTENDS VLib
LenOf(d) == IF d = 3 THEN 2 ELSE 1          \* data sets 1 and 2 are equally long, 3 is longer
NT(d) == IF d = 3 THEN 31 ELSE 20
ModesOf(c, d) == IF c.nm = 0 THEN NT(d) ELSE Min(c.nm, NT(d))
Loc(c, d) == IF c.cls = "pod" THEN <<c.dir, "pod", ModesOf(c, d)>> ELSE <<c.dir, "spod", 10 * c.sub + LenOf(d)>>
NoBlocks == <<0, FALSE, 0>>
BlockKey(c, d) == <<d, c.full, c.opt>>
====
