---- MODULE T_Nearest ----
(* Observed lookups: f - frequencies (axis, req, val, idx 0-based), c - coordinates (req, val, idx per dimension) on axes. *)
EXTENDS ProjLib, TraceLib
VARIABLES l, bad
Ok(axis, q, v, i, t) == /\ i >= 0 /\ i < Len(axis) /\ Abs(v - axis[i + 1]) <= t
                        /\ \A j \in 1..Len(axis) : Abs(axis[i + 1] - q) <= Abs(axis[j] - q) + t
Fails(r) ==
  When(\A k \in DOMAIN r.f : Ok(r.f[k].axis, r.f[k].req, r.f[k].val, r.f[k].idx, r.tol[k]), "frequency found is the nearest of the axis")
  \cup When(\A k \in DOMAIN r.c : Len(r.c[k].idx) = Len(r.axes) /\ Len(r.c[k].val) = Len(r.axes), "one coordinate and index per dimension")
  \cup When(\A k \in DOMAIN r.c : \A d \in 1..Len(r.axes) : (Len(r.c[k].idx) = Len(r.axes) /\ Len(r.c[k].val) = Len(r.axes)) =>
              Ok(r.axes[d], r.c[k].req[d], r.c[k].val[d], r.c[k].idx[d], 0), "coordinates found are the nearest of each axis")
  \cup When(\A k \in DOMAIN r.bad : r.bad[k] = 1, "axes that do not match the data are refused")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
