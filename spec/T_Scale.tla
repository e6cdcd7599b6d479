---- MODULE T_Scale ----
(* Observed scalings.  A, B training and other matrix over the largest entry, V the factors in the same unit, SA, SB the scaled
   matrices; fixed point 1e4, entries <<re, im>>.  back: largest relative difference after descaling, in units of rounding. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
S == 10000
\* scaled * factor = data (a zero factor stands for 1: data zero in the training matrix)
Elem(r, X, Y) == \A i \in 1..r.rows : \A t \in 1..Len(X[i]) : \A c \in 1..2 :
   (r.V[i][c] > 0 /\ Abs(Y[i][t][c]) <= 2 * S /\ r.V[i][c] <= 10 * S) =>
      Abs(Y[i][t][c] * r.V[i][c] - X[i][t][c] * S) <= (Abs(Y[i][t][c]) + r.V[i][c] + S) \div 2 + 2
Fails(r) ==
  When(r.shape[1] = <<r.rows>>, "one factor per row")
  \cup When(r.shape[2] = r.dshape /\ r.shape[3] = r.dshape, "scaled data have the shape of the data")
  \cup When(r.ok, "factors and scaled data are finite")
  \cup When(r.back[1] <= 4, "descaling gives back the training data")
  \cup When(r.back[2] <= 4, "descaling gives back other data")
  \cup When(~r.ismax \/ ~r.over, "scaled training data do not exceed one")
  \cup When(r.permvec <= 4 /\ r.permsc <= 4, "every row is scaled by its own factor")
  \cup When(r.kept, "data are left alone")
  \cup (IF ~r.ok THEN {} ELSE
     When(Elem(r, r.A, r.SA) /\ Elem(r, r.B, r.SB), "scaled entry times the factor of its row and part is the entry")
     \cup When(r.dtype = "complex" \/ \A i \in 1..r.rows : r.V[i][2] = 0, "factors of real data are real")
     \cup When(\A i \in 1..r.rows : r.V[i][1] >= 0 /\ r.V[i][2] >= 0, "factors are not negative"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
