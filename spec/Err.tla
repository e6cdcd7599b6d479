---- MODULE Err ----
(* Error measures as functions of the entrywise difference: l1 (sum of magnitudes), l2 (sum of squares), linf (largest magnitude),
   h1 (sum of squares of successive differences of the error).  Checked over all small records: zero for equal data, positive for
   different data (h1: for errors that are not constant in time), symmetric in the two arguments, triangle inequality, independent
   of the order of space; a candidate that lets errors of opposite sign cancel is shown to differ (Cancel). *)
EXTENDS VLib
CONSTANTS NT, NX, V
VARIABLES a, b, c
Val == (-V)..V
Arr == [1..NT -> [1..NX -> Val]]
Init == a \in Arr /\ b = a /\ c = a
Next == \/ b' \in Arr /\ UNCHANGED <<a, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
L1(x, y) == Sum(LAMBDA t : Sum(LAMBDA p : Abs(x[t][p] - y[t][p]), 1, NX), 1, NT)
L2(x, y) == Sum(LAMBDA t : Sum(LAMBDA p : (x[t][p] - y[t][p]) * (x[t][p] - y[t][p]), 1, NX), 1, NT)
Linf(x, y) == MaxOf(LAMBDA t : MaxOf(LAMBDA p : Abs(x[t][p] - y[t][p]), 1, NX), 1, NT)
H1(x, y) == Sum(LAMBDA t : Sum(LAMBDA p : LET e == (x[t][p] - x[t-1][p]) - (y[t][p] - y[t-1][p]) IN e * e, 1, NX), 2, NT)
Swap(x) == [t \in 1..NT |-> [p \in 1..NX |-> x[t][NX + 1 - p]]]
Zero == L1(a, a) = 0 /\ L2(a, a) = 0 /\ Linf(a, a) = 0 /\ H1(a, a) = 0
Positive == a # b => L1(a, b) > 0 /\ L2(a, b) > 0 /\ Linf(a, b) > 0
H1Null == (H1(a, b) = 0) <=> \A t \in 2..NT : \A p \in 1..NX : a[t][p] - b[t][p] = a[1][p] - b[1][p]
Symmetric == L1(a, b) = L1(b, a) /\ L2(a, b) = L2(b, a) /\ Linf(a, b) = Linf(b, a) /\ H1(a, b) = H1(b, a)
Layout == L1(Swap(a), Swap(b)) = L1(a, b) /\ L2(Swap(a), Swap(b)) = L2(a, b) /\ Linf(Swap(a), Swap(b)) = Linf(a, b) /\ H1(Swap(a), Swap(b)) = H1(a, b)
Order == Linf(a, b) <= L1(a, b) /\ L2(a, b) <= L1(a, b) * L1(a, b) /\ L1(a, b) <= NT * NX * Linf(a, b) /\ L1(a, b) * L1(a, b) <= NT * NX * L2(a, b)
\* triangle inequality through the zero array
Nul == [t \in 1..NT |-> [p \in 1..NX |-> 0]]
Triangle == L1(a, b) <= L1(a, Nul) + L1(Nul, b) /\ Linf(a, b) <= Linf(a, Nul) + Linf(Nul, b)
====
