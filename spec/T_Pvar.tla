---- MODULE T_Pvar ----
(* kind "stat": parts = per rank list of <<re, im>> integers, got = per rank <<n, mean re, mean im, variance>>, the means times 1000,
   the variance times 5 000 000 (divided by the gain of the record, without its level).  kind "weights": d[t][p] = <<re, im>> (variables fastest), w = user weights, got[p] =
   weight after normalisation, scale 10000. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
Close(a, b, tol) == Abs(a - b) <= tol
Fails(r) ==
  IF r.kind = "stat" THEN
    LET P == Len(r.parts)
        n == Sum(LAMBDA p : Len(r.parts[p]), 1, P)
        S(c) == Sum(LAMBDA p : Sum(LAMBDA i : r.parts[p][i][c], 1, Len(r.parts[p])), 1, P)
        Q == Sum(LAMBDA p : Sum(LAMBDA i : r.parts[p][i][1] * r.parts[p][i][1] + r.parts[p][i][2] * r.parts[p][i][2], 1, Len(r.parts[p])), 1, P)
        s1 == S(1)  s2 == S(2)
        var == IF n = 0 THEN 0 ELSE n * Q - s1 * s1 - s2 * s2       \* n^2 times the variance
    IN UNION {LET g == r.got[p] IN
         When(g[1] = n, "count is the number of values")
         \cup When(n = 0 \/ (Close(g[2] * n, 1000 * s1, n) /\ Close(g[3] * n, 1000 * s2, n)), "mean is the mean of all values")
         \cup When(IF n = 0 THEN g[4] = 0 ELSE Close(g[4], ((var * 1000) \div (n * n)) * 5000 + (((var * 1000) % (n * n)) * 5000) \div (n * n), 3), "variance is the variance of all values")
         : p \in 1..Len(r.got)}
       \cup When(r.same, "the data are not modified")
  ELSE
    LET nt == Len(r.d)  P == Len(r.w)  N == nt * (P \div r.nv)
        Sv(v, c) == Sum(LAMBDA p : IF (p - 1) % r.nv = v THEN Sum(LAMBDA t : r.d[t][p][c], 1, nt) ELSE 0, 1, P)
        Qv(v) == Sum(LAMBDA p : IF (p - 1) % r.nv = v THEN Sum(LAMBDA t : r.d[t][p][1] * r.d[t][p][1] + r.d[t][p][2] * r.d[t][p][2], 1, nt) ELSE 0, 1, P)
        vn == TLCEval([v \in 0..(r.nv - 1) |-> N * Qv(v) - Sv(v, 1) * Sv(v, 1) - Sv(v, 2) * Sv(v, 2)])
    IN When(Len(r.got) = P /\ \A p \in 1..P : InRange(r.got[p]), "every weight is a number")
       \cup When(\A p \in 1..P : LET x == vn[(p - 1) % r.nv] IN Close(RDiv(r.got[p] * x, N), r.w[p] * 10000 * N, (x + r.tol * x) \div N + 3),
                 "weights are divided by the variance of their own variable over space and time")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
