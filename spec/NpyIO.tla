---- MODULE NpyIO ----
(* Collective .npy save as a concurrent protocol.  The file is a sequence of cells; a header of H cells, then the array
   in C order.  Every rank owns a slab of the axis (possibly empty) and writes its maximal contiguous runs in any order,
   interleaved with the other ranks.  Start: any stale content, longer than the result. *)
EXTENDS VLib
\* cell values: array cells 0.., 1000 stale, 1001 hole, 1002 header
CONSTANTS Sizes, MaxP, MaxStale
H == 1
VARIABLES sh, ax, cnt, file, pc, todo, hdr
vars == <<sh, ax, cnt, file, pc, todo, hdr>>
P == Len(cnt)
Total == sh[1] * sh[2]
Lo(p) == Sum(LAMBDA q : cnt[q], 1, p - 1)
Owner(k) == LET i == IF ax = 1 THEN k \div sh[2] ELSE k % sh[2] IN CHOOSE p \in 1..P : Lo(p) <= i /\ i < Lo(p) + cnt[p]
Cells(p) == {k \in 0..(Total - 1) : Owner(k) = p}
Runs(p) == {c \in SUBSET Cells(p) : c # {} /\ (\E a, b \in c : c = a..b /\ ~(a - 1) \in Cells(p) /\ ~(b + 1) \in Cells(p))}
Counts(n, k) == {c \in [1..k -> 0..n] : Sum(LAMBDA q : c[q], 1, k) = n}
Init == /\ sh \in Sizes \X Sizes /\ ax \in 1..2
        /\ cnt \in UNION {Counts(sh[ax], k) : k \in 1..MaxP}
        /\ file \in {[i \in 1..k |-> 1000] : k \in 0..MaxStale}
        /\ pc = "open" /\ todo = [p \in 1..P |-> {}] /\ hdr = FALSE
\* opening is collective; truncation happens before any rank may write (Set_size is collective)
Open == pc = "open" /\ pc' = "write" /\ file' = <<>> /\ todo' = [p \in 1..P |-> Runs(p)] /\ UNCHANGED <<sh, ax, cnt, hdr>>
Put(f, at, v) == [i \in 1..Max(Len(f), at) |-> IF i = at THEN v ELSE IF i <= Len(f) THEN f[i] ELSE 1001]
RECURSIVE PutRun(_, _, _)
PutRun(f, a, b) == IF a > b THEN f ELSE PutRun(Put(f, H + 1 + a, a), a + 1, b)
Header == pc = "write" /\ ~hdr /\ hdr' = TRUE /\ file' = Put(file, 1, 1002) /\ UNCHANGED <<sh, ax, cnt, pc, todo>>
\* the view is set after the broadcast of the header length: no data before the header
Write(p) == \E c \in todo[p] : hdr /\ todo' = [todo EXCEPT ![p] = @ \ {c}]
            /\ file' = PutRun(file, CHOOSE a \in c : \A b \in c : a <= b, CHOOSE b \in c : \A a \in c : a <= b)
            /\ UNCHANGED <<sh, ax, cnt, pc, hdr>>
Close == pc = "write" /\ hdr /\ (\A p \in 1..P : todo[p] = {}) /\ pc' = "done" /\ UNCHANGED <<sh, ax, cnt, file, todo, hdr>>
Next == Open \/ Header \/ (\E p \in 1..P : Write(p)) \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == pc = "done" => Len(file) = H + Total /\ file[1] = 1002 /\ \A k \in 0..(Total - 1) : file[H + 1 + k] = k
Disjoint == \A p, q \in 1..P : p # q => Cells(p) \cap Cells(q) = {}
Finishes == <>(pc = "done")
====
