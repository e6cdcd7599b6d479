---- MODULE ProjLib ----
(* Expansion coefficients and reconstruction.  The band: indices of the frequencies nearest to the two requested ones, or the
   list given, or all.  Columns are ordered frequency first, mode second. *)
EXTENDS VLib
\* nearest entry of the axis (the first one of several); the axis need not be sorted
IsNearest(freq, x, i) == \A j \in 1..Len(freq) : Abs(freq[i] - x) <= Abs(freq[j] - x) + 1
Range(lb, ub) == [k \in 1..Max(0, ub - lb + 1) |-> lb + k - 1]
\* bands allowed by a request (0-based index lists)
Bands(freq, req) ==
  IF req.hl THEN {req.list}
  ELSE IF req.tb THEN {Range(i - 1, j - 1) : i \in {k \in 1..Len(freq) : IsNearest(freq, req.lo, k)}, j \in {k \in 1..Len(freq) : IsNearest(freq, req.hi, k)}}
  ELSE {Range(0, Len(freq) - 1)}
\* column k (1-based) of band b with nm modes
ColOf(b, nm, k) == <<b[((k - 1) \div nm) + 1], (k - 1) % nm>>
Step(kind) == CASE kind = "all" -> 1 [] kind = "half" -> 2 [] kind = "quarter" -> 4 [] kind = "tenth" -> 10 [] kind = "hundredth" -> 100 [] OTHER -> 1
Times(kind, list, nt) ==
  CASE kind = "list" -> list
    [] kind = "none" -> <<0, nt \div 2, nt - 1>>
    [] OTHER -> [k \in 1..CeilDiv(nt, Step(kind)) |-> (k - 1) * Step(kind)]
====
