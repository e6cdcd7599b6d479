---- MODULE StreamRef ----
(* Streaming SPOD as a function of the record: which windows its slots complete, and what the sequence of rank-one updates
   amounts to.  Scales as in SpodRef: Fourier coefficients SQ, modes SP, weights SW, energies (squared singular values) SE. *)
EXTENDS VLib, Kernels
SQ == 1000
SP == 1000
SW == 1000
SE == 10000
\* ---- schedule ---------------------------------------------------------------------------------------------------
MinSeq(s) == LET S == SetOfSeq(s) IN CHOOSE m \in S : \A x \in S : m <= x
NSlots(n, dn) == CeilDiv(n, dn)
Start0(n, dn) == [j \in 1..NSlots(n, dn) |-> -(j - 1) * dn]
\* one snapshot: slots are served in order, a completed slot is queued dn behind the youngest one
RECURSIVE Serve(_, _, _, _, _)
Serve(t, done, j, n, dn) ==
  IF j > Len(t) THEN <<t, done>>
  ELSE IF t[j] = n - 1 THEN Serve([t EXCEPT ![j] = MinSeq(t) - dn], done + 1, j + 1, n, dn)
  ELSE Serve([t EXCEPT ![j] = t[j] + 1], done, j + 1, n, dn)
RECURSIVE Ends(_, _, _, _, _, _)
\* last snapshots (0-based) of the completed windows
Ends(t, ti, nt, acc, n, dn) ==
  IF ti = nt THEN acc
  ELSE LET x == TLCEval(Serve(t, 0, 1, n, dn)) IN Ends(x[1], ti + 1, nt, IF x[2] > 0 THEN Append(acc, ti) ELSE acc, n, dn)
Windows(n, dn, nt) == TLCEval(Ends(Start0(n, dn), 0, nt, <<>>, n, dn))
\* ---- updates ----------------------------------------------------------------------------------------------------
\* update b of B: C := (b+1)/(b+2) C + (b+1)/(b+2)^2 x x^H from C = 0, that is  C = sum_b (b+1)/(b+2) x_b x_b^H / (B+2)
Dn(r) == r.n - CeilDiv(r.n * r.ovl, 100)
NFreq(r) == IF r.isreal /\ ~r.full THEN (r.n \div 2) + 1 ELSE r.n
Amp(r, f) == IF r.isreal /\ f > 1 /\ f < NFreq(r) THEN 2 ELSE 1
\* unweighted coefficients of the window that ends at snapshot e, with the running mean of snapshots 0..e taken off
XHat(r, e) ==
  LET d == r.d  P == r.P  n == r.n  s == e - n + 1
      kr == TLCEval(KR[n])  ki == TLCEval(KI[n])
      den == ((e + 1) * 100000) \div SQ
      sm == TLCEval([p \in 1..P |-> <<Sum(LAMBDA t : d[t][p][1], 1, e + 1), Sum(LAMBDA t : d[t][p][2], 1, e + 1)>>])
      cn == TLCEval([t \in 1..n |-> [p \in 1..P |-> <<(e + 1) * d[s + t][p][1] - sm[p][1], (e + 1) * d[s + t][p][2] - sm[p][2]>>]])
  IN TLCEval([f \in 1..NFreq(r) |-> [p \in 1..P |->
       << Amp(r, f) * RDiv(Sum(LAMBDA t : kr[f][t]*cn[t][p][1] - ki[f][t]*cn[t][p][2], 1, n), den),
          Amp(r, f) * RDiv(Sum(LAMBDA t : kr[f][t]*cn[t][p][2] + ki[f][t]*cn[t][p][1], 1, n), den) >>]])
\* a term of C: <<numerator, denominator, vector (scale SQ) at every frequency>>; the terms are not weighted by sqrt(w)
FullTerms(r) == LET W == Windows(r.n, Dn(r), r.nt)  B == Len(W) IN
  TLCEval([b \in 1..B |-> << b + 1, (b + 2) * (B + 2), XHat(r, W[b]) >>])
\* from the state of a prefix that ends just before the last update
StepTerms(r) == LET W == Windows(r.n, Dn(r), r.nt)  B == Len(W)
                    \* singular value (scale 1000) times mode (scale SP), scale SQ
                    old == TLCEval([k \in 1..r.nm |-> << B + 1, B + 2,
                        [f \in 1..NFreq(r) |-> [p \in 1..r.P |-> << RDiv(r.psig[f][k] * r.pmodes[f][k][p][1], SP), RDiv(r.psig[f][k] * r.pmodes[f][k][p][2], SP) >>]] >>])
                IN old \o << << B + 1, (B + 2) * (B + 2), XHat(r, W[B]) >> >>
Shape(r) ==
  When(r.nf = NFreq(r), "number of frequencies")
  \cup When(Len(r.eigs) = NFreq(r) /\ (\A f \in DOMAIN r.eigs : Len(r.eigs[f]) = r.nm), "the requested number of eigenvalues at every frequency")
  \cup When(Len(r.modes) = NFreq(r) /\ (\A f \in DOMAIN r.modes : Len(r.modes[f]) = r.nm /\ \A k \in DOMAIN r.modes[f] : Len(r.modes[f][k]) = r.P),
            "the requested number of modes over space and variables stored at every frequency")
  \cup When(\A q \in DOMAIN r.reqs : r.reqs[q] = [i \in 1..r.nt |-> i - 1], "every snapshot is read exactly once, in order, on every rank")
\* time mean (scale 1000) of all snapshots
LtMean(r) == ~r.mean \/ (Len(r.ltm) = r.P /\ \A p \in 1..r.P : \A q \in 1..2 :
  InRange(r.ltm[p][q]) /\ Abs(r.ltm[p][q] * r.nt - 1000 * Sum(LAMBDA t : r.d[t][p][q], 1, r.nt)) <= 2 * r.nt)
Basic(r) == LET nf == NFreq(r) IN
  When(\A f \in 1..nf : \A k \in 1..r.nm : InRange(r.eigs[f][k]), "eigenvalues are finite numbers")
  \cup When(LtMean(r), "the stored time mean is the mean of all snapshots")
  \cup When(r.eigreal, "eigenvalues are real")
  \cup When(\A f \in 1..nf : \A k \in 1..r.nm : r.eigs[f][k] >= 0 /\ r.rank[f][k] >= 0, "eigenvalues are non-negative")
  \cup When(\A f \in 1..nf : \A k \in 1..(r.nm - 1) : r.rank[f][k] >= r.rank[f][k+1], "eigenvalues in decreasing order")
  \cup When(\A f \in 1..nf : \A k \in 1..r.nm : r.big[f][k] => \A p \in 1..r.P : InRange(r.modes[f][k][p][1]) /\ InRange(r.modes[f][k][p][2]), "modes of non-negligible eigenvalues are finite")
CMul1(a, b, s) == RDiv(a[1]*b[1] + a[2]*b[2], s)
CMul2(a, b, s) == RDiv(a[1]*b[2] - a[2]*b[1], s)
Ip(r, a, b, s) == << Sum(LAMBDA p : RDiv(CMul1(a[p], b[p], s) * r.w[p], SW), 1, r.P), Sum(LAMBDA p : RDiv(CMul2(a[p], b[p], s) * r.w[p], SW), 1, r.P) >>
OT(r) == 12 + 3 * r.P
Orth(r) == \A f \in 1..NFreq(r) : \A i \in 1..r.nm : r.big[f][i] => \A j \in i..r.nm : r.big[f][j] =>
  LET x == TLCEval(Ip(r, r.modes[f][i], r.modes[f][j], SP)) IN
  IF i = j THEN Abs(x[1] - SP) <= OT(r) /\ Abs(x[2]) <= OT(r) ELSE Abs(x[1]) <= OT(r) /\ Abs(x[2]) <= OT(r)
\* ---- the basis is the dominant part of C = sum of terms ----------------------------------------------------------
Frac(x, t) == RDiv(x * t[1], t[2])
Oracle(r, T) ==
  LET nf == NFreq(r)  nT == Len(T)
      SqN(x) == LET a == Min(Abs(x), 45000) IN RDiv(a * a, 1000)
      En(b, f) == Sum(LAMBDA p : RDiv(RDiv(SqN(T[b][3][f][p][1]) + SqN(T[b][3][f][p][2]), 2) * r.w[p] * 2, 1000), 1, r.P)      \* scale 1000
      Tr(f) == Sum(LAMBDA b : Frac(En(b, f), T[b]), 1, nT)
      Lam(f, k) == RDiv(r.eigs[f][k], SE \div 1000)
      Got(f) == Sum(LAMBDA k : Lam(f, k), 1, r.nm)
      Rest(f) == Tr(f) - Got(f)
      TolE(f) == 14 + (Tr(f) * (1 + r.tol)) \div 100 + r.P * nT
      \* all terms fit into the basis, or all but one dimension
      Sum1(f) == IF r.nm >= nT THEN Abs(Rest(f)) <= TolE(f) ELSE Rest(f) >= -TolE(f) /\ (r.nm = nT - 1 => Rest(f) <= Lam(f, r.nm) + TolE(f))
      Sq(x) == IF Abs(x) < 40000 THEN RDiv(x * x, 100) ELSE LET y == RDiv(x, 10) IN y * y
      G(f, a, b) == TLCEval(Ip(r, T[a][3][f], T[b][3][f], 1000))
      \* coefficients are rationals: product of two terms' factors
      Fro(f) == Sum(LAMBDA a : Sum(LAMBDA b : LET g == G(f, a, b)
                     c(x) == Sq(RDiv(x * 3, 3)) IN Frac(Frac(c(g[1]) + c(g[2]), T[a]), T[b]), 1, nT), 1, nT)
      Sec(f) == Sum(LAMBDA k : Sq(Lam(f, k)), 1, r.nm) + (IF r.nm = nT - 1 THEN Sq(Max(Rest(f), 0)) ELSE 0)
      Mom(f) == r.nm >= nT - 1 => LET a == TLCEval(Fro(f))  b == TLCEval(Sec(f)) IN Abs(a - b) <= 80 + 40 * r.tol + (Max(a, b) * (3 * r.tol + 2)) \div 100
      Res(f, k) == LET g == TLCEval([b \in 1..nT |-> Ip(r, T[b][3][f], r.modes[f][k], SP)])        \* scale SQ
                       lam == Lam(f, k)
                       Tol == 24 + 4 * r.P + r.tol * 12 + ((r.tol + 1) * Tr(f)) \div 60
                   IN \A p \in {q \in 1..r.P : r.w[q] > 0} :
                        LET re == Sum(LAMBDA b : Frac(RDiv(T[b][3][f][p][1]*g[b][1] - T[b][3][f][p][2]*g[b][2], SQ), T[b]), 1, nT)
                            im == Sum(LAMBDA b : Frac(RDiv(T[b][3][f][p][1]*g[b][2] + T[b][3][f][p][2]*g[b][1], SQ), T[b]), 1, nT)
                        IN /\ Abs(re - RDiv(lam * r.modes[f][k][p][1], SP)) <= Tol
                           /\ Abs(im - RDiv(lam * r.modes[f][k][p][2], SP)) <= Tol
  IN When(\A f \in 1..nf : Sum1(f), "eigenvalues account for the weighted energy of the windows its schedule completes")
     \cup When(\A f \in 1..nf : Mom(f), "eigenvalues are those of the updated cross-spectral density (second moment)")
     \cup When(\A f \in 1..nf : \A k \in 1..r.nm : r.big[f][k] => Res(f, k), "modes are eigenvectors of the updated cross-spectral density")
Verdict(r) == LET s == Shape(r) IN IF s # {} THEN s ELSE LET b == Basic(r) IN IF b # {} THEN b ELSE
  LET o == When(Orth(r), "stored modes are orthonormal in the weighted inner product") IN
  o \cup (CASE r.kind = "full" -> Oracle(r, FullTerms(r)) [] r.kind = "step" -> Oracle(r, StepTerms(r)) [] OTHER -> {})
====
