---- MODULE T_Conf ----
(* records: nb, lev (level * 10000), e/lo/up: dense ranks of eigenvalue, lower and upper bound among each other (exact order),
   fl/fu: factors lower/eig, upper/eig in units of 1e-6 for the non-negligible eigenvalues.
   The state remembers the factors of every (nb, level) seen; a history is a set of fits, in any order. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad, tab
Tol == 20
Near(a, b) == Abs(a - b) <= Tol + Max(Abs(a), Abs(b)) \div 100000
FailsOf(r) ==
  LET nf == Len(r.ord)
      g == When(r.shape, "bounds have the shape of the eigenvalues")
           \cup When(r.fin, "bounds are finite real numbers")
  IN IF g # {} THEN g ELSE
     When(\A i \in 1..nf : \A k \in DOMAIN r.ord[i] : r.ord[i][k][1] <= r.ord[i][k][2], "lower bound at most the eigenvalue")
     \cup When(\A i \in 1..nf : \A k \in DOMAIN r.ord[i] : r.ord[i][k][2] <= r.ord[i][k][3], "upper bound at least the eigenvalue")
     \cup When(\A i \in DOMAIN r.fl : Near(r.fl[i], r.fl[1]) /\ Near(r.fu[i], r.fu[1]), "factors are the same for every eigenvalue")
     \cup (IF Len(r.fl) = 0 THEN {} ELSE
            When(\A k \in DOMAIN tab : (k[1] = r.nb /\ k[2] = r.lev) => Near(tab[k][1], r.fl[1]) /\ Near(tab[k][2], r.fu[1]),
                 "factors depend only on the number of blocks and the level")
            \cup When(\A k \in DOMAIN tab : (k[1] = r.nb /\ k[2] < r.lev) => r.fl[1] <= tab[k][1] + Tol /\ r.fu[1] >= tab[k][2] - Tol,
                 "raising the level never narrows the interval")
            \cup When(\A k \in DOMAIN tab : (k[1] = r.nb /\ k[2] > r.lev) => tab[k][1] <= r.fl[1] + Tol /\ tab[k][2] >= r.fu[1] - Tol,
                 "raising the level never narrows the interval"))
Init == l = 1 /\ bad = {} /\ tab = <<>>
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN
             /\ bad' = bad \cup {<<r.id, c>> : c \in FailsOf(r)}
             /\ tab' = IF Len(r.fl) > 0 /\ r.fin THEN (<<r.nb, r.lev>> :> <<r.fl[1], r.fu[1]>>) @@ tab ELSE tab
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad, tab>>
Done == Consumed
====
