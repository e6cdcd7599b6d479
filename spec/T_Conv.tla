---- MODULE T_Conv ----
(* Observed convolution coefficients.  A[f][t][k] scale 2000 (modes and weights normalised to magnitude 1, scales 2e4 and 1e4),
   d the record in integers, B[f][t][k] = coefficient / (n sqrt(largest eigenvalue)) scale 1e4, lam eigenvalues / largest scale 1e4. *)
EXTENDS ConvLib, Kernels, TraceLib
VARIABLES l, bad
WSum(n) == SumTo(WN[n], n)
WPart(n, a, b) == Sum(LAMBDA j : WN[n][j], a, b)
\* mean-removed record times nt
Mean(r, c) == TLCEval([p \in 1..r.N |-> Sum(LAMBDA t : r.d[t][p][c], 1, r.nt)])
\* windowed Fourier coefficient at time t, band frequency f (index into fidx), point p; gain-corrected, scale 2000
Q(r, m, f, t, p) ==
  LET n == r.n  kr == KR[n][r.fidx[f] + 1]  ki == KI[n][r.fidx[f] + 1]
      s(j) == First(n, t) + j - 1
      X(j, c) == IF Inside(r.nt, s(j)) THEN r.nt * r.d[s(j) + 1][p][c] - m[c][p] ELSE 0
      den == 50 * r.nt
  IN << RDiv(Sum(LAMBDA j : kr[j] * X(j, 1) - ki[j] * X(j, 2), 1, n), den), RDiv(Sum(LAMBDA j : kr[j] * X(j, 2) + ki[j] * X(j, 1), 1, n), den) >>
\* coefficient without boundary correction, scale 2000
Coef(r, q, f, k) == LET P == r.P[f][k] IN
  << Sum(LAMBDA p : RDiv(RDiv(P[p][1] * q[p][1] + P[p][2] * q[p][2], 20000) * r.W[p], 10000), 1, r.N),
     Sum(LAMBDA p : RDiv(RDiv(P[p][1] * q[p][2] - P[p][2] * q[p][1], 20000) * r.W[p], 10000), 1, r.N) >>
Gain(r, x) == RDiv(x * RDiv(WSum(r.n), 100), 1000)           \* the coefficients are not divided by the sum of the window
NMod(r) == Len(r.P[1])
Want(r, m, t) == TLCEval([f \in 1..r.nf |-> LET q == TLCEval([p \in 1..r.N |-> Q(r, m, f, t, p)]) IN
                    [k \in 1..NMod(r) |-> LET c == Coef(r, q, f, k) IN <<Gain(r, c[1]), Gain(r, c[2])>>]])
Mag(x) == Max(Abs(x[1]), Abs(x[2]))
\* square of the correction, scale 1000: the window part inside the record, up to two samples more at the start, one sample fewer at the end
Corr2Max(r, t) == IF Fits(r.n, r.nt, t) THEN 1000 ELSE (WSum(r.n) * 1000) \div Max(1, WPart(r.n, Lo(r.n, r.nt, t, 0), Hi(r.n, r.nt, t, -1)))
Corr2Min(r, t) == IF Fits(r.n, r.nt, t) THEN 1000 ELSE (WSum(r.n) * 1000) \div WPart(r.n, Lo(r.n, r.nt, t, 2), Hi(r.n, r.nt, t, 0))
Tol(r) == (5 + 3 * r.N + (IF r.single THEN 20 ELSE 0)) * (1 + WSum(r.n) \div 100000)
\* correction (scale 1000) as the ratio at the largest coefficient of this time
Ratio(r, w, t) == LET big == CHOOSE fk \in (1..r.nf) \X (1..NMod(r)) : \A gk \in (1..r.nf) \X (1..NMod(r)) : Mag(w[fk[1]][fk[2]]) >= Mag(w[gk[1]][gk[2]])
                      x == w[big[1]][big[2]]  y == r.A[big[1]][t + 1][big[2]]
                      c == IF Abs(x[1]) >= Abs(x[2]) THEN 1 ELSE 2
                  IN <<Mag(x), IF Mag(x) < 20 * Tol(r) THEN 1000 ELSE RDiv(y[c] * 1000, x[c])>>
TimeOk(r, m, t) ==
  LET w == Want(r, m, t)  z == Ratio(r, w, t)  rho == z[2]  known == z[1] >= 20 * Tol(r)
      slack == IF known THEN 2 + (1200 * Tol(r)) \div z[1] ELSE 0
      same == \A f \in 1..r.nf : \A k \in 1..NMod(r) : \A c \in 1..2 :
                 LET y == r.A[f][t + 1][k][c]  e == w[f][k][c] IN
                 IF known THEN Abs(y - RDiv(e * rho, 1000)) <= Tol(r) + (Abs(e) * slack) \div 1000
                 ELSE Abs(y) <= 80 * Tol(r) /\ (Fits(r.n, r.nt, t) => Abs(y - e) <= Tol(r))
  IN IF Fits(r.n, r.nt, t) THEN When(same /\ Abs(rho - 1000) <= slack, "coefficient at a time whose window lies inside the record is the projection of the windowed Fourier coefficient on the mode")
     ELSE When(same, "one correction for all frequencies and modes at a time whose window leaves the record")
          \cup When(~known \/ rho >= 1000 - slack, "the correction at the ends of the record amplifies")
          \cup When(~known \/ r.nt < r.n \/ ((rho - slack) * (rho - slack) <= 1000 * (Corr2Max(r, t) + 2) /\ (rho + slack) * (rho + slack) >= 1000 * (Corr2Min(r, t) - 2)),
                    "the correction at the ends is that of the part of the window inside the record")
\* ---- the record of the fit: at the blocks of the fit the coefficients have the eigenvalue as mean square and are uncorrelated ----
OneSidedFactor(r, f) == IF ~r.full /\ r.fidx[f] > 0 /\ ~(r.n % 2 = 0 /\ r.fidx[f] = r.n \div 2) THEN 2 ELSE 1
Blocks(r) == {b \in 0..(r.nb - 1) : Fits(r.n, r.nt, b * r.stride + Half(r.n))}
AtB(r, f, b, k) == r.B[f][b * r.stride + Half(r.n) + 1][k]
\* mean window (scale 1e4): the coefficients lack the division by n * mean(window)
MeanWin(n) == 5400 - (4600 \div n)
LinkOk(r, f, i, j) ==
  LET a(b) == AtB(r, f, b, i)  c(b) == AtB(r, f, b, j)
      sr == Sum(LAMBDA b : RDiv(a(b)[1] * c(b)[1] + a(b)[2] * c(b)[2], 10000), 0, r.nb - 1)
      si == Sum(LAMBDA b : RDiv(a(b)[1] * c(b)[2] - a(b)[2] * c(b)[1], 10000), 0, r.nb - 1)
      g == RDiv(MeanWin(r.n) * MeanWin(r.n), 10000)
      want == IF i = j THEN RDiv(r.nb * RDiv(r.lam[f][i] * g, 10000), OneSidedFactor(r, f)) ELSE 0
      tol == 8 * r.nb + (IF r.single THEN 40 ELSE 4)
  IN Abs(sr - want) <= tol /\ Abs(si) <= tol
\* all blocks of the fit fit with a sample to spare
Linked(r) == r.fit /\ \A b \in 0..(r.nb - 1) : b \in Blocks(r)
Fails(r) ==
  IF ~r.shape THEN {"a coefficient for every frequency of the band, snapshot and mode"}
  ELSE IF ~r.fin THEN {"coefficients are finite"}
  ELSE When(Len(r.fidx) = r.nf, "a coefficient for every frequency of the band, snapshot and mode")
    \cup (IF Len(r.fidx) # r.nf THEN {} ELSE
       (IF r.tab THEN LET m == TLCEval(<<Mean(r, 1), Mean(r, 2)>>) IN UNION {TimeOk(r, m, t) : t \in 0..(r.nt - 1)} ELSE {})
       \cup When(~Linked(r) \/ \A f \in 1..r.nf : \A i \in 1..NMod(r) : \A j \in i..NMod(r) : LinkOk(r, f, i, j),
                 "over the blocks of the fit the coefficients are uncorrelated with the eigenvalue as mean square")
       \cup When(\A k \in 1..Len(r.others) : r.others[k][2] <= 100, "coefficients are the same for any number of ranks"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
