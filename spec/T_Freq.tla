---- MODULE T_Freq ----
(* r.fr[k]: frequency * n * dt in units of 1e-6; r.fr2: the same from the file; r.peak: entries (0-based) whose energy is
   within 5 percent of the largest; r.m: cycles per block of the input; r.chk: whether the peak is decidable *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
F == INSTANCE Freq WITH n <- 4, isreal <- TRUE, full <- TRUE, m <- 0
Fails(r) ==
  LET nf == F!NF(r.n, r.isreal, r.full)
      g == When(Len(r.fr) = nf, "number of frequencies") 
           \cup When(r.neig = nf /\ r.nmodes = nf /\ r.nfattr = nf, "axis, eigenvalues and modes have equally many frequencies")
  IN IF g # {} THEN g ELSE
     When(\A k \in 1..nf : Abs(r.fr[k] - 1000000 * F!Cyc(r.n, r.isreal, r.full, k - 1)) <= 2, "entry k is the physical frequency of index k")
     \cup When(r.same, "attribute and file agree")
     \cup (IF r.chk THEN When({r.peak[i] : i \in DOMAIN r.peak} = F!Hits(r.n, r.isreal, r.full, r.m),
          "a pure oscillation has its energy at the entry of its frequency") ELSE {})
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
