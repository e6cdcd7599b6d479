---- MODULE Conv ----
(* Convolution coefficients formed by several ranks, over a small prime field (exact arithmetic).  Every rank holds a slab of the
   points, pads it with half a window of zeros at both ends and slides the window at its own pace; the partial coefficients are
   summed over the ranks when every rank is through.  Checked for every record, mode, weight and interleaving: coefficients are
   those of one rank; at the blocks of a fit they are the coefficients of the block; linear in the record (a record that is zero
   under the window gives zero). *)
EXTENDS ConvLib, Kernels
CONSTANTS F, N, NT, WL, Stride, MaxRanks
VARIABLES x, phi, w, nr, at, part, a
vars == <<x, phi, w, nr, at, part, a>>
Fld == 0..(F - 1)
Win == [j \in 1..WL |-> 1 + (j % (F - 1))]
Slab(r) == {StartOf(N, nr, r) + i : i \in 1..CountOf(N, nr, r)}
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET y == CHOOSE y \in s : TRUE IN (f[y] + SumSet(f, s \ {y})) % F
Padded(p) == [i \in 0..(NT + 2 * Half(WL) - 1) |-> IF Inside(NT, i - Half(WL)) THEN x[p][i - Half(WL)] ELSE 0]
Under(p, t) == LET z == Padded(p) IN SumSet([j \in 1..WL |-> Win[j] * z[t + j - 1]], 1..WL)
Init == /\ x \in [1..N -> [0..(NT - 1) -> Fld]] /\ phi \in [1..N -> Fld] /\ w = [p \in 1..N |-> 1 + (p % (F - 1))]
        /\ nr \in 1..MaxRanks /\ at = [r \in 0..(nr - 1) |-> 0]
        /\ part = [r \in 0..(nr - 1) |-> [t \in 0..(NT - 1) |-> 0]] /\ a = <<>>
Slide(r) == /\ at[r] < NT
            /\ part' = [part EXCEPT ![r][at[r]] = SumSet([p \in 1..N |-> phi[p] * w[p] * Under(p, at[r])], Slab(r))]
            /\ at' = [at EXCEPT ![r] = @ + 1] /\ UNCHANGED <<x, phi, w, nr, a>>
Reduce == /\ a = <<>> /\ \A r \in 0..(nr - 1) : at[r] = NT
          /\ a' = [t \in 1..NT |-> SumSet([r \in 0..(nr - 1) |-> part[r][t - 1]], 0..(nr - 1))]
          /\ UNCHANGED <<x, phi, w, nr, at, part>>
Next == Reduce \/ \E r \in DOMAIN at : Slide(r)
Spec == Init /\ [][Next]_vars
\* definition, without padding and ranks
Def(t) == SumSet([p \in 1..N |-> phi[p] * w[p] * SumSet([j \in 1..WL |-> IF Inside(NT, First(WL, t) + j - 1) THEN Win[j] * x[p][First(WL, t) + j - 1] ELSE 0], 1..WL)], 1..N)
Serial == a # <<>> => \A t \in 0..(NT - 1) : a[t + 1] = Def(t)
BlockCoef(b) == SumSet([p \in 1..N |-> phi[p] * w[p] * SumSet([j \in 1..WL |-> Win[j] * x[p][b * Stride + j - 1]], 1..WL)], 1..N)
BlockLink == a # <<>> => \A b \in 0..NT : (b * Stride + WL <= NT /\ b * Stride + Half(WL) < NT) => a[b * Stride + Half(WL) + 1] = BlockCoef(b)
Local == a # <<>> => \A t \in 0..(NT - 1) : (\A p \in 1..N : \A j \in 1..WL : Inside(NT, First(WL, t) + j - 1) => x[p][First(WL, t) + j - 1] = 0) => a[t + 1] = 0
\* geometry of the window and of the correction, for all tabulated windows
ASSUME \A n \in 2..24 : \A nt \in 2..40 : \A t \in 0..(nt - 1) :
         /\ First(n, t) <= t /\ t < First(n, t) + n                            \* the window contains its snapshot
         /\ t + n <= nt + 2 * Half(n)                                          \* the padding suffices
         /\ Fits(n, nt, t) <=> (Lo(n, nt, t, 0) = 1 /\ Hi(n, nt, t, 0) = n /\ First(n, t) + n # nt)
         /\ Lo(n, nt, t, 0) <= Hi(n, nt, t, 0)
ASSUME \A n \in 4..10 : LET W(i, j) == Sum(LAMBDA k : WN[n][k], i, j) IN
         /\ \A k \in 1..n : WN[n][k] > 0 /\ Abs(WN[n][k] - WN[n][n + 1 - k]) <= 1        \* positive, symmetric: shrinking the window amplifies
         /\ \A nt \in n..(3 * n) : \A t \in 0..(nt - 1) : W(Lo(n, nt, t, 2), Hi(n, nt, t, 2)) >= W(Lo(n, nt, t, -1), Hi(n, nt, t, -1))
         /\ \A nt \in n..(3 * n) : \A t \in 0..(nt - 1) : 4 * W(Lo(n, nt, t, 0), Hi(n, nt, t, 0)) >= W(1, n)      \* the correction is bounded
====
