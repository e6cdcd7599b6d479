---- MODULE Freq ----
(* The frequency axis of a transform of length n: entry k, signed for complex data, physical unit 1/(n*dt).
   A pure oscillation of m cycles per block is seen at every entry congruent to m (or -m for a real signal). *)
EXTENDS VLib
NF(n, isreal, full) == IF isreal /\ ~full THEN (n \div 2) + 1 ELSE n
\* cycles per block of entry k (0-based)
Cyc(n, isreal, full, k) == IF full \/ isreal THEN k ELSE IF 2 * k > n THEN k - n ELSE k
Hits(n, isreal, full, m) == {k \in 0..(NF(n, isreal, full) - 1) : k % n = m % n \/ (isreal /\ k % n = (-m) % n)}
\* --- design: the axis is injective modulo n, complete, and its entries lie in the resolvable band
VARIABLES n, isreal, full, m
Init == n \in 4..24 /\ isreal \in BOOLEAN /\ full \in BOOLEAN /\ m \in 0..23 /\ m < n
Next == UNCHANGED <<n, isreal, full, m>>
Spec == Init /\ [][Next]_<<n, isreal, full, m>>
Entries == 0..(NF(n, isreal, full) - 1)
Signed == \A k \in Entries : LET c == Cyc(n, isreal, full, k) IN
   /\ (c - k) % n = 0
   /\ (~full => 2 * Abs(c) <= n)
   /\ (full => c >= 0 /\ c < n)
Distinct == \A a, b \in Entries : a # b => Cyc(n, isreal, full, a) # Cyc(n, isreal, full, b)
OneEntry == Cardinality(Hits(n, isreal, full, m)) = IF isreal /\ full /\ (2 * m) % n # 0 THEN 2 ELSE 1
====
