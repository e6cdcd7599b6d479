---- MODULE T_Seq ----
(* Observed windows and predictions.  Entries of x and y are <<time, feature, record>>; predictions written are
   <<network (1 real, 2 imaginary), end of the window it was made from, step, feature>>, all 0-based times. *)
EXTENDS ProjLib, TraceLib
VARIABLES l, bad
Win(x, ni, nf, t, rec) == Len(x) = ni /\ \A k \in 1..ni : Len(x[k]) = nf /\ \A f \in 1..nf : x[k][f] = <<t + k - 1, f - 1, rec>>
Tgt(y, no, nf, t, rec) == Len(y) = no * nf /\ \A k \in 1..no : \A f \in 1..nf : y[(k - 1) * nf + f] = <<t + k - 1, f - 1, rec>>
Count(nt, ni, no, fh) == nt - ni - no - fh + 1
Pairs(r, x, y, nt, fh, rec) ==
  /\ Len(x) = Len(y) /\ Len(x) \in {Count(nt, r.ni, r.no, fh), Count(nt, r.ni, r.no, fh) + 1}
  /\ \A k \in 1..Len(x) : Win(x[k], r.ni, r.nf, k - 1, rec) /\ Tgt(y[k], r.no, r.nf, k - 1 + r.ni - 1 + fh, rec)
Net(k) == CASE k = 1 -> "real" [] k = 2 -> "imag"
Weights(k, idx) == (CASE k = 1 -> "real" [] k = 2 -> "imag") \o ToString(idx) \o ".weights.h5"
Place(r, k) == r.ni + r.no * ((k - 1) \div r.no)     \* end of the window the k-th predicted snapshot is made from
Fails(r) ==
  (IF ~r.seq THEN {} ELSE
     When(Len(r.xs) = 3 /\ Len(r.ys) = 2 /\ r.xs[2] = r.ni /\ r.xs[3] = r.nf /\ r.ys[2] = r.no * r.nf, "shape of the training pairs")
     \cup When(Pairs(r, r.x, r.y, r.nt, r.fh, 1), "training pairs are consecutive windows of consecutive snapshots, targets fh after the inputs"))
  \cup When(r.cshape = <<r.nf, r.nt>>, "inference returns the shape of the data")
  \cup When(r.init, "initial snapshots are copied")
  \cup When(r.kept, "data are left alone")
  \cup (IF r.cshape # <<r.nf, r.nt>> THEN {} ELSE
     When(\A f \in 1..r.nf : \A k \in 1..(r.nt - r.ni) : r.cr[f][k] = <<1, Place(r, k), (k - 1) % r.no, f - 1>>,
          "real parts are the predictions of the real network from the inputs right before")
     \cup When(\A f \in 1..r.nf : \A k \in 1..(r.nt - r.ni) : r.ci[f][k] = IF r.haveim THEN <<2, Place(r, k), (k - 1) % r.no, f - 1>> ELSE <<0, 0, 0, 0>>,
          "imaginary parts are the predictions of the imaginary network from the inputs right before")
     \cup When(SetOfSeq(r.nets) = IF r.haveim THEN {Weights(1, r.idx), Weights(2, r.idx)} ELSE {Weights(1, r.idx)}, "networks loaded are those trained for the index"))
  \cup (IF ~r.trained THEN {} ELSE
     When(Len(r.train) = IF r.cplx THEN 2 ELSE 1, "one network per part")
     \cup When(\A k \in 1..Len(r.train) : /\ Pairs(r, r.train[k].x, r.train[k].y, r.nt, 1, k)
                                          /\ Pairs(r, r.train[k].vx, r.train[k].vy, r.nt + 1, 1, k + 2), "networks are trained and validated with the pairs of their part")
     \cup When(\A k \in 1..Len(r.train) : \E i \in DOMAIN r.train[k].fp : r.train[k].fp[i] = Weights(k, r.idx), "weights are stored where inference reads them"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
