---- MODULE T_Pod ----
(* Observed POD fits, projections and reconstructions.  Fixed point, scale S = 2e4; the record is normalised to weighted energy 1
   (largest weight 1, scale 10000).  L eigenvalues over the energy, P[k][p] stored modes, X the mean-removed record, A[k][i]
   coefficients of the projected record D at its sampled times ts[i], AU those handed to the reconstruction, R[j][p] reconstruction
   minus stored mean.  live[k]: the k-th eigenvalue is above rounding. *)
EXTENDS ProjLib, TraceLib
VARIABLES l, bad
S == 20000
WMul(x, w) == RDiv(x * w, 10000)
\* <x, y>_w
Ip(r, x, y) == Sum(LAMBDA p : WMul(RDiv(x[p] * y[p], S), r.W[p]), 1, r.N)
TolIp(r) == 6 + 4 * r.N
KL(r) == {k \in 1..r.K : r.live[k]}
MaxAbs(s) == MaxOf(LAMBDA i : Abs(s[i]), 1, Len(s))
Trace1(r) == Sum(LAMBDA k : r.L[k], 1, r.nt)
\* sum of squares of the eigenvalues is the squared norm of the correlation matrix of snapshots
Sq(r) == LET Q == TLCEval([i \in 1..r.nt |-> [j \in 1..r.nt |-> Ip(r, r.X[i], r.X[j])]]) IN
         Sum(LAMBDA i : Sum(LAMBDA j : RDiv(Q[i][j] * Q[i][j], S), 1, r.nt), 1, r.nt)
SqL(r) == Sum(LAMBDA k : RDiv(r.L[k] * r.L[k], S), 1, r.nt)
Orthonormal(r) == \A k \in KL(r) : \A m \in KL(r) : m <= k => Abs(Ip(r, r.P[k], r.P[m]) - (IF k = m THEN S ELSE 0)) <= TolIp(r) + (((MaxAbs(r.P[k]) + MaxAbs(r.P[m])) * r.N) \div S)
\* X* X W phi = lambda phi
EigenEq(r) == \A k \in KL(r) : LET c == TLCEval([i \in 1..r.nt |-> Ip(r, r.P[k], r.X[i])]) IN
   \A p \in 1..r.N : Abs(Sum(LAMBDA i : RDiv(c[i] * r.X[i][p], S), 1, r.nt) - RDiv(r.L[k] * r.P[k][p], S)) <= 8 + 3 * r.nt + TolIp(r)
Coeffs(r) == \A k \in 1..r.K : \A i \in 1..Len(r.ts) : Abs(r.A[k][i] - Ip(r, r.P[k], r.D[i])) <= TolIp(r) + ((MaxAbs(r.P[k]) * r.N) \div S)
Full(r) == Len(r.ts) = r.nt2
CoefEnergy(r) == \A k \in KL(r) : \A m \in KL(r) : m <= k =>
   Abs(Sum(LAMBDA i : RDiv(r.A[k][i] * r.A[m][i], S), 1, r.nt2) - (IF k = m THEN r.L[k] ELSE 0)) <= 6 + 4 * r.nt
Model(r, C, i, p) == Sum(LAMBDA k : RDiv(r.P[k][p] * C[k][i], S), 1, r.K)
TolM(r, i) == 4 + Sum(LAMBDA k : 2 + (MaxAbs(r.P[k]) + Abs(r.AU[k][i])) \div S, 1, r.K)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x
RecOk(r) == LET T == Times(r.tkind, r.tlist, r.nt2) IN
  \A j \in 1..Len(T) : LET t == IF T[j] < 0 THEN T[j] + r.nt2 ELSE T[j] IN
     In(r.ts, t) => LET i == Pos(r.ts, t) IN
        /\ Len(r.R[j]) = r.N
        /\ \A p \in 1..r.N : Abs(r.R[j][p] - Model(r, r.AU, i, p)) <= TolM(r, i)
\* what the saved modes leave of the record is the energy of the modes not saved
Best(r) == LET rest == Sum(LAMBDA i : LET e == TLCEval([p \in 1..r.N |-> r.D[i][p] - Model(r, r.A, i, p)]) IN Ip(r, e, e), 1, r.nt2)
               left == Sum(LAMBDA k : r.L[k], 1, r.nt) - Sum(LAMBDA k : IF k <= r.K THEN r.L[k] ELSE 0, 1, r.nt)
           IN Abs(rest - left) <= r.nt * TolIp(r)
Fails(r) ==
  LET T == Times(r.tkind, r.tlist, r.nt2) IN
  When(r.shapes[1] = <<r.nt>>, "one eigenvalue per snapshot")
  \cup When(r.shapes[2] = r.xs \o <<r.nv, r.K>> /\ r.shapes[5] = r.shapes[2], "modes have the shape of the grid and the requested number")
  \cup When(r.shapes[3] = r.xs \o <<r.nv>>, "weights have the shape of the grid")
  \cup When(r.shapes[4] = <<r.K, r.nt2>>, "one coefficient per mode and snapshot")
  \cup When(r.shapes[6] = r.xs \o <<r.nv>>, "time mean has the shape of the grid")
  \cup When(r.nms[1] = r.K /\ r.nms[2] = r.nms[3] /\ r.gnt = r.nt, "number of modes and snapshots reported")
  \cup When(r.kinds[1] = "f" /\ r.kinds[2] = "f", "eigenvalues and modes are real")
  \cup When(r.fin, "results are finite")
  \cup When(~r.fin \/ r.wdiff <= 100 \/ (r.single /\ r.wdiff <= 1000), "weights used are the weights given")
  \cup When(~r.fin \/ r.attr = 0, "eigenvalues reported are the ones stored")
  \cup (IF ~r.whole THEN {} ELSE
     When(~r.neg, "eigenvalues are non-negative")
     \cup When(~r.noninc, "eigenvalues decrease")
     \cup When(IF r.flat THEN \A k \in 1..r.nt : Abs(r.L[k]) <= 1 ELSE Abs(Trace1(r) - S) <= 2 + r.nt, "eigenvalues sum to the weighted energy")
     \cup When(r.flat \/ Abs(Sq(r) - SqL(r)) <= 20 + 8 * r.nt + 4 * r.N, "eigenvalues are those of the correlation matrix")
     \cup When(Orthonormal(r), "modes are orthonormal in the weighted inner product")
     \cup When(r.flat \/ EigenEq(r), "modes are eigenvectors of the weighted correlation")
     \cup When(r.pdiff <= 1, "modes stored with the coefficients are the modes")
     \cup When(r.mean <= 1, "time mean stored is that of the data projected")
     \cup When(Coeffs(r), "coefficients are weighted projections of the mean-removed data")
     \cup When(~r.same \/ r.zero \/ r.flat \/ ~Full(r) \/ CoefEnergy(r), "coefficients are uncorrelated with the eigenvalues as energies")
     \cup When(~r.same \/ r.zero \/ r.flat \/ ~Full(r) \/ Best(r), "energy left by the modes is that of the modes not saved")
     \cup When(r.shapes[7] = <<Len(T)>> \o r.xs \o <<r.nv>>, "reconstruction holds the requested times")
     \cup When(r.shapes[7][1] # Len(T) \/ RecOk(r), "reconstruction is modes times coefficients plus mean at the requested times"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
