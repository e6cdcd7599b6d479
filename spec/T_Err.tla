---- MODULE T_Err ----
(* Observed error measures of integer data (complex data: entries with integer magnitude).  e[t][p] is the magnitude of the
   difference, rr[t][p] that of the reference, de2[t][p] the squared magnitude of the change of the difference since t-1.
   Values are recorded times the number of entries n (relative ones times 60), in the fixed point of lib/ops_misc.err. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
All(r, F(_, _)) == Sum(LAMBDA t : Sum(LAMBDA p : F(t, p), 1, Len(r.e[t])), 1, Len(r.e))
Mx(r, F(_, _)) == MaxOf(LAMBDA t : MaxOf(LAMBDA p : F(t, p), 1, Len(r.e[t])), 1, Len(r.e))
\* v is S times the square root of q
Root(v, S, q) == v >= 0 /\ Abs(v * v - S * S * q) <= 2 * v + 2
Is(r, k, v) == LET E(t, p) == r.e[t][p]  E2(t, p) == r.e[t][p] * r.e[t][p]
                   R(t, p) == (60 * r.e[t][p]) \div r.rr[t][p]  R2(t, p) == R(t, p) * R(t, p)  H(t, p) == r.de2[t][p]
  IN CASE k = "l1" -> Abs(v - 1000 * All(r, E)) <= 1
       [] k = "l2" -> Root(v, 400, All(r, E2))
       [] k = "linf" -> Abs(v - 1000 * Mx(r, E)) <= 1
       [] k = "l1r" -> Abs(v - 100 * All(r, R)) <= 1
       [] k = "l2r" -> Root(v, 8, All(r, R2))
       [] k = "linfr" -> Abs(v - 100 * Mx(r, R)) <= 1
       [] k = "h1" -> Root(v, 200, All(r, H))
Same(a, b) == Abs(a - b) <= 1
Fails(r) ==
  When(Is(r, "l1", r.l1), "l1 is the mean magnitude of the difference")
  \cup When(Is(r, "l2", r.l2) /\ Is(r, "l2", r.l2d), "l2 is the root of the sum of squares over the number of entries")
  \cup When(Is(r, "linf", r.linf), "linf is the largest magnitude")
  \cup When(Is(r, "l1r", r.l1r), "relative l1 is that of the relative difference")
  \cup When(Is(r, "l2r", r.l2r), "relative l2 is that of the relative difference")
  \cup When(Is(r, "linfr", r.linfr), "relative linf is that of the relative difference")
  \cup When(Is(r, "h1", r.h1) /\ Same(r.h1, r.h1n), "h1 is the norm of the difference of the time derivatives")
  \cup When(\A i \in DOMAIN r.zeros : r.zeros[i] = 0, "error of equal data is zero")
  \cup When(Same(r.swap[1], r.l1) /\ Same(r.swap[2], r.l2) /\ Same(r.swap[3], r.linf) /\ Same(r.swap[4], r.h1), "errors are symmetric")
  \cup When(\A i \in 1..7 : Same(r.perm[i], <<r.l1, r.l2, r.linf, r.l1r, r.l2r, r.linfr, r.h1>>[i]), "errors do not depend on the order of space")
  \cup When(r.real, "errors are real numbers")
  \cup When(r.kept, "data and reference are left alone")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
