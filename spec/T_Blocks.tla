---- MODULE T_Blocks ----
(* Observed block contents (recovered from the stored Fourier coefficients), time means and block counts against SpodRef *)
EXTENDS SpodRef, TraceLib
VARIABLES l, bad
Fails(r) ==
  LET g == When(r.nb = NBlk(r), "number of blocks is floor((nt - novlp)/(n_dft - novlp))")
           \cup When(r.nt_seen = r.nt, "record length")
           \cup When(r.dirnb = NBlk(r) /\ r.dirnov = NOvlp(r), "results folder names the blocks used")
           \cup When(r.files = NBlk(r) * NFreq(r), "one file per block and frequency")
           \cup When(Len(r.blk) = NBlk(r) /\ \A b \in DOMAIN r.blk : Len(r.blk[b]) = r.n /\ \A t \in DOMAIN r.blk[b] : Len(r.blk[b][t]) = r.P, "block shape")
           \cup When(Len(r.ltm) = r.P, "shape of the time mean")
      cr == Content(r, 1)  ci == Content(r, 2)
      First(b, p) == /\ r.blk[b][1][p] = << cr[b][1][p], ci[b][1][p] >>
  IN IF g # {} THEN g ELSE
     When(\A b \in 1..NBlk(r) : \A t \in 1..r.n : \A p \in 1..r.P : r.blk[b][t][p] = << cr[b][t][p], ci[b][t][p] >>,
          "block i is the n_dft consecutive snapshots starting at i*stride, unaltered, minus the mean")
     \cup When(\A p \in 1..r.P : r.ltm[p] = << Sum(LAMBDA t : r.d[t][p][1], 1, r.nt), Sum(LAMBDA t : r.d[t][p][2], 1, r.nt) >>,
          "the time mean uses every snapshot once")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
