---- MODULE Blocks ----
(* Cutting a record of nt snapshots into overlapping blocks while the record is held as chunks that are released as
   soon as no later block needs them.  Checked for all small records, block lengths, overlaps and chunkings. *)
EXTENDS VLib
CONSTANTS MaxNt, MaxN, Overlaps, MaxChunks
VARIABLES nt, n, ovl, cuts, held, i, out
vars == <<nt, n, ovl, cuts, held, i, out>>
NOvlp == CeilDiv(n * ovl, 100)
Stride == n - NOvlp
NB == (nt - NOvlp) \div Stride
\* chunk k covers snapshots cuts[k] .. cuts[k+1]-1
Chunks == 1..(Len(cuts) - 1)
Covers(k) == cuts[k]..(cuts[k+1] - 1)
RECURSIVE AllCuts(_, _)
AllCuts(m, e) == IF m = 1 THEN {<<0, e>>} ELSE
   AllCuts(m - 1, e) \cup {<<0>> \o s : s \in {[j \in 1..Len(x) |-> x[j]] : x \in {y \in UNION {{<<a, e>>, <<a, b, e>>} : a \in 1..(e-1), b \in 1..(e-1)} : \A j \in 1..(Len(y)-1) : y[j] < y[j+1]}}}
Init == /\ nt \in 4..MaxNt /\ n \in 4..MaxN /\ ovl \in Overlaps
        /\ n - CeilDiv(n * ovl, 100) >= 1
        /\ (nt - CeilDiv(n * ovl, 100)) \div (n - CeilDiv(n * ovl, 100)) >= 2
        /\ cuts \in AllCuts(MaxChunks, nt)
        /\ held = 1..(Len(cuts) - 1)
        /\ i = 0 /\ out = <<>>
Need(b) == (b * Stride)..(b * Stride + n - 1)
Take == /\ i < NB
        /\ out' = Append(out, {t \in Need(i) : \E k \in held : t \in Covers(k)})
        /\ i' = i + 1 /\ UNCHANGED <<nt, n, ovl, cuts, held>>
\* a chunk may go once the next block starts at or after its end
Drop(k) == /\ k \in held /\ cuts[k+1] <= i * Stride
           /\ held' = held \ {k} /\ UNCHANGED <<nt, n, ovl, cuts, i, out>>
Next == Take \/ \E k \in Chunks : Drop(k)
Spec == Init /\ [][Next]_vars
\* every block is complete, n consecutive snapshots inside the record, starting one stride after the previous one
Complete == \A b \in DOMAIN out : out[b] = Need(b - 1)
Inside == \A b \in 0..(NB-1) : Need(b) \subseteq 0..(nt-1)
NoMore == ~(NB * Stride + n <= nt)            \* another block would not fit
Rest == nt - ((NB - 1) * Stride + n) < Stride
Overlap == \A b \in 0..(NB-2) : Cardinality(Need(b) \cap Need(b+1)) = NOvlp
====
