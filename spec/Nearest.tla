---- MODULE Nearest ----
(* Nearest entry of an axis, and of a grid given by one axis per dimension: a lookup may return any index tuple none of whose
   coordinates can be improved; the scan that keeps the first best entry is one such lookup (refinement, checked for every small
   axis, also unsorted or with repeated entries), and the nearest grid point in the sum of distances is the tuple of nearest
   coordinates. *)
EXTENDS ProjLib
CONSTANTS N, M, V
VARIABLES ax, ay, qx, qy, k, best
vars == <<ax, ay, qx, qy, k, best>>
Val == 0..V
Init == /\ \E n \in 1..N : ax \in [1..n -> Val]
        /\ \E n \in 1..M : ay \in [1..n -> Val]
        /\ qx \in 0..(V + 1) /\ qy \in 0..(V + 1) /\ k = 1 /\ best = 1
Next == /\ k < Len(ax) /\ k' = k + 1
        /\ best' = IF Abs(ax[k + 1] - qx) < Abs(ax[best] - qx) THEN k + 1 ELSE best
        /\ UNCHANGED <<ax, ay, qx, qy>>
Spec == Init /\ [][Next]_vars
Near(a, q, i) == \A j \in 1..Len(a) : Abs(a[i] - q) <= Abs(a[j] - q)
ScanNearest == k = Len(ax) => Near(ax, qx, best)
Grid == \A i \in 1..Len(ax) : \A j \in 1..Len(ay) :
  (Near(ax, qx, i) /\ Near(ay, qy, j)) <=> \A x \in 1..Len(ax) : \A y \in 1..Len(ay) : Abs(ax[i] - qx) + Abs(ay[j] - qy) <= Abs(ax[x] - qx) + Abs(ay[y] - qy)
====
