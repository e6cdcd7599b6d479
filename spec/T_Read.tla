---- MODULE T_Read ----
(* Reading a result directory is a function of its contents: File(f, m) is mode m at frequency f, whatever the order in which the
   directory lists its files, their time stamps, the current directory and earlier reads.  One record = one copy of a result directory.
   one/all: <<f, columns>>, a column is the set of stored modes it is equal to, bit for bit. *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Good(r, seq) == /\ Len(seq) = r.nf
                /\ \A k \in 1..Len(seq) : /\ seq[k][1] = k - 1
                                          /\ Len(seq[k][2]) = r.nm
                                          /\ \A m \in 1..r.nm : Has(seq[k][2][m], <<k - 1, m - 1>>)
Fails(r) == When(r.ok, "a result directory can be read") \cup
  (IF ~r.ok THEN {} ELSE
   When(Good(r, r.one), "reading a frequency returns its modes in eigenvalue order")
   \cup When(Good(r, r.all), "reading all modes returns [frequency, space, variable, mode]")
   \cup When(r.kept, "reading or changing what was read leaves the stored modes as they were")
   \cup When(r.cwd, "reading does not change the current directory"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
