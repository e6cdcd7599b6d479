---- MODULE ConvLib ----
(* Expansion coefficients by convolution: at every snapshot t (0-based) of a record of nt snapshots the coefficient is formed
   from the n samples starting half a window before t, samples outside the record counting as zero. *)
EXTENDS VLib
Half(n) == CeilDiv(n, 2)
First(n, t) == t - Half(n)                    \* snapshot under the first sample of the window (may be outside)
Inside(nt, s) == s >= 0 /\ s < nt
\* samples of the window (1-based) that lie inside the record, m extra at the end that sticks out (m may be negative)
Lo(n, nt, t, m) == Max(1, 1 - First(n, t) - (IF First(n, t) < 0 THEN m ELSE 0))
Hi(n, nt, t, m) == Min(n, nt - First(n, t) + (IF First(n, t) + n >= nt THEN m ELSE 0))
Fits(n, nt, t) == First(n, t) >= 0 /\ First(n, t) + n < nt
Sticks(n, nt, t) == <<First(n, t) < 0, First(n, t) + n > nt>>
====
