---- MODULE PlotLib ----
(* What a picture of gridded data has to show: every cell carries the value of the grid point whose coordinates it is drawn at. *)
EXTENDS VLib
\* source index (0-based) of entry k of an axis of n entries rolled by half a period (shift180) and/or fft-shifted
Half(n, k) == (k + (n \div 2)) % n
FftS(n, k) == (k + n - (n \div 2)) % n
Src(n, h, s, k) == LET a == IF s THEN FftS(n, k) ELSE k IN IF h THEN Half(n, a) ELSE a
\* a field of n1 x n2 points on coordinates of L1 (horizontal) and L2 (vertical) entries: rows run along the vertical axis when the sizes permit
Rows(n1, n2, L1, L2) == n1 = L2 /\ n2 = L1
Fits(n1, n2, L1, L2) == Rows(n1, n2, L1, L2) \/ (n1 = L1 /\ n2 = L2)
\* grid point shown at (vertical R, horizontal C), 0-based: the half period moves the horizontal axis, the fft shift the second axis of the data
At(n1, n2, L1, L2, h, s, R, C) == IF Rows(n1, n2, L1, L2) THEN <<R, Src(n2, h, s, C)>> ELSE <<Src(n1, h, FALSE, C), Src(n2, FALSE, s, R)>>
\* the assignments of three coordinate vectors to the three axes of a field, in order of preference
Perms == << <<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>> >>
FitsBy(p, sh, L) == \A a \in 1..3 : sh[a] = L[p[a]]
FirstFit(sh, L) == Perms[CHOOSE q \in 1..6 : FitsBy(Perms[q], sh, L) /\ \A w \in 1..q - 1 : ~FitsBy(Perms[w], sh, L)]
Remain(d) == CASE d = 0 -> <<2, 3>> [] d = 1 -> <<1, 3>> [] OTHER -> <<1, 2>>
\* grid point (0-based triple) of a slice of axis d (0-based) at index q shown at (vertical R, horizontal C)
Slice(sh, d, q, s, R, C) == LET e == Src(sh[Remain(d)[2]], FALSE, s, R) IN
  CASE d = 0 -> <<q, C, e>> [] d = 1 -> <<C, q, e>> [] OTHER -> <<C, e, q>>
Nearest(a, q, i) == i >= 1 /\ i <= Len(a) /\ \A j \in 1..Len(a) : Abs(a[i] - q) <= Abs(a[j] - q)
====
