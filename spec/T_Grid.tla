---- MODULE T_Grid ----
(* One record = one call on all ranks.  shape: global shape; skip: leading axes that must not be distributed (1 for a
   time record); axis: the axis reported/used (0-based, relative to shape after skip); parts: <<shape, tags>> per rank in
   rank order; tags are the C-order positions of the elements in the global array.  want = -1: largest axis. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
Tail1(s, k) == SubSeq(s, k + 1, Len(s))
\* C-order positions of the sub-box shape with axis a (1-based) restricted to lo..hi-1
RECURSIVE Strides(_)
Strides(s) == IF Len(s) = 0 THEN <<>> ELSE <<Prod(Tail(s))>> \o Strides(Tail(s))
PosOf(shape, a, lo, sub, k) ==   \* global position of the k-th (0-based) element of the sub-box
  LET ss == Strides(sub)  gs == Strides(shape)
      Ix(j) == (k \div ss[j]) % sub[j]
  IN Sum(LAMBDA j : (Ix(j) + IF j = a THEN lo ELSE 0) * gs[j], 1, Len(shape))
Fails(r) ==
  LET sh == r.shape  P == Len(r.parts)  a == r.axis + 1 + r.skip
      okaxis == a \in (1 + r.skip)..Len(sh)
      rest == [j \in 1..Len(sh) |-> IF j = a THEN 0 ELSE sh[j]]
      g == When(okaxis, "axis is a spatial axis")
           \cup (IF okaxis THEN
                 (IF r.want = -1 THEN When(\A j \in (1 + r.skip)..Len(sh) : sh[j] <= sh[a], "axis is the largest one") ELSE When(r.axis = r.want, "requested axis"))
                 \cup When(\A p \in 1..P : Len(r.parts[p][1]) = Len(sh) /\ \A j \in 1..Len(sh) : j # a => r.parts[p][1][j] = sh[j], "other axes are whole")
                ELSE {})
           \cup When(\A i \in DOMAIN r.axes : r.axes[i] = r.axis, "weights, modes and readers use the axis of the data")
           \cup When(r.gshape = <<>> \/ r.gshape = Tail1(sh, r.skip), "global shape reported")
  IN IF g # {} THEN g ELSE
     LET cnt == [p \in 1..P |-> r.parts[p][1][a]]
         st == [p \in 1..P |-> Sum(LAMBDA j : cnt[j], 1, p - 1)]
         g2 == When(Sum(LAMBDA p : cnt[p], 1, P) = sh[a], "slabs add up to the axis")
               \cup When(\A p, q \in 1..P : Abs(cnt[p] - cnt[q]) <= 1, "slab sizes differ by at most one")
               \cup When(\A p \in 1..P : Len(r.parts[p][2]) = Prod(r.parts[p][1]), "slab holds as many values as its shape")
     IN IF g2 # {} THEN g2 ELSE
        When(\A p \in 1..P : \A k \in 1..Len(r.parts[p][2]) : r.parts[p][2][k] = PosOf(sh, a, st[p], r.parts[p][1], k - 1),
             "slabs in rank order concatenate to the array, element for element")
        \cup When(r.others = <<>> \/ \A p \in 1..P : \A o \in DOMAIN r.others : r.others[o][p] = <<st[p], st[p] + cnt[p]>>, "weights and modes get the same slab as the data")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
