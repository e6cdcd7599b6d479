---- MODULE T_Npy ----
(* One record = one collective save (counts given) and one collective load of the same file.  Values are the C-order
   positions in the global array (modulo 2 for booleans). *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
RECURSIVE Strides(_)
Strides(s) == IF Len(s) = 0 THEN <<>> ELSE <<Prod(Tail(s))>> \o Strides(Tail(s))
PosOf(shape, a, lo, sub, k) ==
  LET ss == Strides(sub)  gs == Strides(shape)  Ix(j) == (k \div ss[j]) % sub[j]
  IN Sum(LAMBDA j : (Ix(j) + IF j = a THEN lo ELSE 0) * gs[j], 1, Len(shape))
Val(r, k) == IF r.bool THEN k % 2 ELSE k
Fails(r) ==
  LET sh == r.shape  P == Len(r.parts)  a == r.laxis + 1
      want == [p \in 1..P |-> IF r.lcounts = <<>> THEN CountOf(sh[a], P, p - 1) ELSE r.lcounts[p]]
      lo == [p \in 1..P |-> Sum(LAMBDA q : want[q], 1, p - 1)]
      sub == [p \in 1..P |-> [j \in 1..Len(sh) |-> IF j = a THEN want[p] ELSE sh[j]]]
  IN When(r.file[1] = sh, "saved file has the global shape")
     \cup When(r.file[3], "saved file has the dtype of the array")
     \cup When(r.file[1] = sh => Len(r.file[2]) = Prod(sh) /\ \A k \in 1..Prod(sh) : r.file[2][k] = Val(r, k - 1), "numpy reads back exactly the concatenation of the slabs")
     \cup When(r.extra = 0, "nothing of an older file remains")
     \cup When(r.same, "the saved array is not modified")
     \cup When(\A p \in 1..P : r.parts[p][1] = sub[p], "each rank loads its contiguous share (shape)")
     \cup When(\A p \in 1..P : r.parts[p][3], "loaded share has the dtype of the file")
     \cup When(\A p \in 1..P : r.parts[p][1] = sub[p] => \A k \in 1..Len(r.parts[p][2]) : r.parts[p][2][k] = Val(r, PosOf(sh, a, lo[p], sub[p], k - 1)),
               "the shares together are the file, element for element")
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
