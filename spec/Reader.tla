---- MODULE Reader ----
(* Two-stage reading as a protocol.  Stage 1: the requested window of times is cut over the readers, every reader reads its
   times (whole space) from the files they fall into.  Stage 2: every rank sends every rank its points; the receiver stores
   the message of rank i at the offset of i's times.  All delivery orders; any file division, window, readers and points. *)
EXTENDS VLib
CONSTANTS MaxT, MaxP, MaxX
VARIABLES files, ts, te, nr, P, X, got, pend
vars == <<files, ts, te, nr, P, X, got, pend>>
RECURSIVE Splits(_)
Splits(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Splits(n - k)} : k \in 1..n}
RCount(i) == IF i < nr THEN CountOf(te - ts, nr, i) ELSE 0
RStart(i) == Sum(LAMBDA j : RCount(j), 0, i - 1)
\* stage 1: what reader i gets by walking the files with a cumulative time
FLo(f) == Sum(LAMBDA g : files[g], 1, f - 1)
RECURSIVE Walk(_, _)
Walk(i, f) == IF f > Len(files) THEN <<>> ELSE
  LET a == Max(FLo(f), ts + RStart(i))  b == Min(FLo(f) + files[f], ts + RStart(i) + RCount(i))
  IN [k \in 1..Max(0, b - a) |-> <<f, a + k - 1 - FLo(f)>>] \o Walk(i, f + 1)
Init == /\ files \in UNION {Splits(n) : n \in 1..MaxT}
        /\ LET n == SumSeq(files) IN ts \in 0..(n - 1) /\ te \in 1..n
        /\ ts < te /\ P \in 1..MaxP /\ nr \in 1..MaxP /\ nr <= P /\ X \in 1..MaxX
        /\ got = [q \in 0..(P - 1) |-> [t \in 1..(te - ts) |-> <<0, 0>>]]
        /\ pend = (0..(P - 1)) \X (0..(P - 1))
Deliver == \E m \in pend :
  LET i == m[1]  q == m[2]  w == Walk(i, 1) IN
  /\ pend' = pend \ {m}
  /\ got' = [got EXCEPT ![q] = [t \in 1..(te - ts) |-> IF t > RStart(i) /\ t <= RStart(i) + Len(w) THEN w[t - RStart(i)] ELSE got[q][t]]]
  /\ UNCHANGED <<files, ts, te, nr, P, X>>
Next == Deliver
Spec == Init /\ [][Next]_vars
\* snapshot t of the window is file f, position t - FLo(f)
Right(x, t) == x[1] \in 1..Len(files) /\ FLo(x[1]) + x[2] = t /\ x[2] \in 0..(files[x[1]] - 1)
Complete == pend = {} => \A q \in 0..(P - 1) : \A t \in 1..(te - ts) : Right(got[q][t], ts + t - 1)
Readers == \A i \in 0..(P - 1) : Len(Walk(i, 1)) = RCount(i)
Points == Sum(LAMBDA q : CountOf(X, P, q), 0, P - 1) = X /\ \A q \in 0..(P - 1) : StartOf(X, P, q) = Sum(LAMBDA j : CountOf(X, P, j), 0, q - 1)
====
