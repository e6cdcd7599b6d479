---- MODULE Proj ----
(* Weighted oblique projection by several ranks, over a small prime field (exact arithmetic): every rank forms its part of
   M = P* W P and Q = P* W d, in any order; after the sum over ranks all ranks solve the same system; every rank writes its own
   slab of modes and mean; the reconstruction is formed slab by slab by another number of ranks.  Checked for every content:
   residual orthogonal to every mode of the band, same coefficients and same reconstruction for any two partitions, data in the
   span reproduced.  Band and time selection are checked as functions. *)
EXTENDS ProjLib
CONSTANTS F, N, MaxRanks
VARIABLES P, d, w, n1, n2, pc, M, Q, a, file, rec
vars == <<P, d, w, n1, n2, pc, M, Q, a, file, rec>>
Fld == 0..(F - 1)
Slab(n, r) == {StartOf(N, n, r) + i : i \in 1..CountOf(N, n, r)}
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN (f[x] + SumSet(f, s \ {x})) % F
Inv(x) == CHOOSE y \in Fld : (x * y) % F = 1
PartM(s) == SumSet([p \in 1..N |-> (P[p] * P[p] * w[p]) % F], s)
PartQ(s) == SumSet([p \in 1..N |-> (P[p] * d[p] * w[p]) % F], s)
Init == /\ P \in [1..N -> Fld] /\ d \in [1..N -> Fld] /\ w \in [1..N -> 1..(F - 1)]
        /\ n1 \in 1..MaxRanks /\ n2 \in 1..MaxRanks
        /\ PartM(1..N) # 0                  \* a mode of non-zero norm
        /\ pc = {r : r \in 0..(n1 - 1)} /\ M = 0 /\ Q = 0 /\ a = -1 /\ file = [p \in 1..N |-> -1] /\ rec = [p \in 1..N |-> -1]
\* a rank contributes its part (any order)
Part(r) == /\ a = -1 /\ r \in pc /\ pc' = pc \ {r}
           /\ M' = (M + PartM(Slab(n1, r))) % F /\ Q' = (Q + PartQ(Slab(n1, r))) % F
           /\ file' = [p \in 1..N |-> IF p \in Slab(n1, r) THEN P[p] ELSE file[p]]
           /\ UNCHANGED <<P, d, w, n1, n2, a, rec>>
Solve == /\ a = -1 /\ pc = {} /\ a' = (Inv(M) * Q) % F /\ pc' = 0..(n2 - 1) /\ UNCHANGED <<P, d, w, n1, n2, M, Q, file, rec>>
Rec(r) == /\ a # -1 /\ r \in pc /\ pc' = pc \ {r} /\ rec' = [p \in 1..N |-> IF p \in Slab(n2, r) THEN (file[p] * a) % F ELSE rec[p]]
          /\ UNCHANGED <<P, d, w, n1, n2, M, Q, a, file>>
Next == Solve \/ \E r \in 0..(MaxRanks - 1) : Part(r) \/ Rec(r)
Spec == Init /\ [][Next]_vars
Finished == a # -1 /\ pc = {}
ResidualOrthogonal == a # -1 => SumSet([p \in 1..N |-> (P[p] * w[p] * (d[p] + (F - 1) * P[p] * a)) % F], 1..N) = 0
SerialCoefficients == a # -1 => a = (Inv(PartM(1..N)) * PartQ(1..N)) % F
SpanReproduced == (Finished /\ \E c \in Fld : \A p \in 1..N : d[p] = (c * P[p]) % F) => rec = d
RecIsModel == Finished => \A p \in 1..N : rec[p] = (P[p] * a) % F
FileComplete == a # -1 => file = P
\* selection functions on all small axes
ASSUME \A n \in 1..6 : LET fr == [i \in 1..n |-> (i - 1) * 10] IN \A x \in 0..60 : \A y \in x..60 :
         \A b \in Bands(fr, [hl |-> FALSE, list |-> <<>>, tb |-> TRUE, lo |-> x, hi |-> y]) : \A k \in 1..(Len(b) - 1) : b[k + 1] = b[k] + 1
ASSUME \A nt \in 1..25 : \A k \in {"all", "half", "quarter", "tenth"} : LET T == Times(k, <<>>, nt) IN Len(T) >= 1 /\ T[1] = 0 /\ T[Len(T)] < nt /\ T[Len(T)] + Step(k) >= nt
ASSUME \A nm \in 1..4 : \A n \in 1..4 : LET b == [k \in 1..n |-> k + 2] IN \A i, j \in 1..(n * nm) : ColOf(b, nm, i) = ColOf(b, nm, j) => i = j
====
