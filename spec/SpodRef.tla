---- MODULE SpodRef ----
(* The batch SPOD as a function of the record, in integers: block partition, mean removal, windowed DFT,
   one-sided doubling, weighted cross-spectral density.  Verdict(r) is the set of violated clauses of one
   observed result r.  Scales: kernel 1e5, Fourier coefficients SQ, modes SP, weights 1000, eigenvalues SE. *)
EXTENDS VLib, Kernels
SQ == 1000
SP == 1000
SW == 1000
SE == 10000

NOvlp(r) == CeilDiv(r.n * r.ovl, 100)
Stride(r) == r.n - NOvlp(r)
NBlk(r) == (r.nt - NOvlp(r)) \div Stride(r)
OneSided(r) == r.isreal /\ ~r.full
NFreq(r) == IF OneSided(r) THEN (r.n \div 2) + 1 ELSE r.n
NModes(r) == Min(r.nmodes, NBlk(r))
\* data: r.d[t][p] = <<re, im>>
\* mean-removed content of block b (0-based), scaled by Den
Den(r) == CASE r.mean = "longtime" -> r.nt [] r.mean = "blockwise" -> r.n [] r.mean = "zero" -> 1
Content(r, c) ==
  LET nb == NBlk(r)  s == Stride(r)  d == r.d  P == r.P
      lt == TLCEval([p \in 1..P |-> Sum(LAMBDA t : d[t][p][c], 1, r.nt)])
  IN TLCEval([b \in 1..nb |-> [t \in 1..r.n |-> [p \in 1..P |->
        LET x == d[(b-1)*s + t][p][c] IN
        CASE r.mean = "longtime" -> r.nt * x - lt[p]
          [] r.mean = "blockwise" -> r.n * x - Sum(LAMBDA u : d[(b-1)*s + u][p][c], 1, r.n)
          [] OTHER -> x]]])
\* n*(n-1) times the pointwise block variance
BlockVar(r, b, p) ==
  LET s == Stride(r)
      X(t, c) == r.d[(b-1)*s + t][p][c]
      sq == Sum(LAMBDA t : X(t,1)*X(t,1) + X(t,2)*X(t,2), 1, r.n)
      m1 == Sum(LAMBDA t : X(t,1), 1, r.n)
      m2 == Sum(LAMBDA t : X(t,2), 1, r.n)
  IN r.n * sq - m1*m1 - m2*m2
\* Fourier coefficients <<re, im>> of block b, frequency index f (1-based), point p, scale SQ
Qhat(r) ==
  LET cr == Content(r, 1)  ci == Content(r, 2)
      kr == TLCEval(KR[r.n])  ki == TLCEval(KI[r.n])
      den == (Den(r) * 100000) \div SQ
      nv == IF r.normdata THEN TLCEval([b \in 1..NBlk(r) |-> [p \in 1..r.P |-> BlockVar(r, b, p)]]) ELSE <<>>
      Fin(x, b, p) == IF ~r.normdata \/ nv[b][p] = 0 THEN RDiv(x, den)
                      ELSE RDiv(RDiv(x, den) * (r.n * (r.n - 1)), nv[b][p])
  IN TLCEval([b \in 1..NBlk(r) |-> [f \in 1..NFreq(r) |-> [p \in 1..r.P |->
       << Fin(Sum(LAMBDA t : kr[f][t]*cr[b][t][p] - ki[f][t]*ci[b][t][p], 1, r.n), b, p),
          Fin(Sum(LAMBDA t : kr[f][t]*ci[b][t][p] + ki[f][t]*cr[b][t][p], 1, r.n), b, p) >>]]])
\* effective weights, scale SW: r.w[p] are the user's weights at scale SW
VarOfVariable(r, v) ==   \* <<numerator, denominator>> of the variance over space and time of variable v
  LET mine(p) == (p - 1) % r.nv = v
      N == r.nt * (r.P \div r.nv)
      sq == Sum(LAMBDA p : IF mine(p) THEN Sum(LAMBDA t : r.d[t][p][1]*r.d[t][p][1] + r.d[t][p][2]*r.d[t][p][2], 1, r.nt) ELSE 0, 1, r.P)
      m1 == Sum(LAMBDA p : IF mine(p) THEN Sum(LAMBDA t : r.d[t][p][1], 1, r.nt) ELSE 0, 1, r.P)
      m2 == Sum(LAMBDA p : IF mine(p) THEN Sum(LAMBDA t : r.d[t][p][2], 1, r.nt) ELSE 0, 1, r.P)
  IN << N * sq - m1*m1 - m2*m2, N * N >>
Weights(r) ==
  IF ~r.normw THEN r.w
  ELSE LET vv == TLCEval([v \in 0..(r.nv-1) |-> VarOfVariable(r, v)])
       IN TLCEval([p \in 1..r.P |-> LET v == (p-1) % r.nv IN RDiv(r.w[p] * vv[v][2], vv[v][1])])
\* a one-sided spectrum counts the interior frequencies twice
Factor(r, f) == IF OneSided(r) /\ f > 1 /\ ~(r.n % 2 = 0 /\ f = NFreq(r)) THEN 2 ELSE 1

Shape(r) == \* everything later clauses index must be there
  When(r.nb = NBlk(r), "number of blocks")
  \cup When(r.nf = NFreq(r), "number of frequencies")
  \cup When(Len(r.eigs) = NFreq(r) /\ (\A f \in DOMAIN r.eigs : Len(r.eigs[f]) = NBlk(r)), "shape of the eigenvalues")
ModeShape(r) ==
  When(Len(r.modes) = NFreq(r), "modes stored for every frequency")
  \cup When(\A f \in DOMAIN r.modes : Len(r.modes[f]) = NModes(r) /\ \A k \in DOMAIN r.modes[f] : Len(r.modes[f][k]) = r.P,
            "min(requested, blocks) modes over space and variables stored at every frequency")

\* ---- eigenvalues -----------------------------------------------------------------
EigClauses(r, q, w) ==
  LET nb == NBlk(r)  nf == NFreq(r)
      Nrm(b, f, p) == LET x == q[b][f][p] IN (x[1]*x[1] + x[2]*x[2])
      \* nb * weighted energy, scale 1000
      En(f) == Sum(LAMBDA b : Sum(LAMBDA p : RDiv(RDiv(Nrm(b, f, p), 500) * (w[p] \div 2), 1000), 1, r.P), 1, nb)
      Tr(f) == Sum(LAMBDA k : RDiv(r.eigs[f][k], SE \div 1000), 1, nb)
      Ok(f) == LET e == Factor(r, f) * RDiv(En(f), nb)  t == Tr(f)
               IN Abs(e - t) <= 12 + 6 * r.tol + (e * r.tol) \div 100 + (r.P * nb) \div 2
  IN When(\A f \in 1..nf : \A k \in 1..nb : InRange(r.eigs[f][k]), "eigenvalues are finite numbers")
     \cup When(r.eigreal, "eigenvalues are real")
     \cup When(\A f \in 1..nf : \A k \in 1..nb : r.eigs[f][k] >= 0 /\ r.rank[f][k] >= 0, "eigenvalues are non-negative")
     \cup When(\A f \in 1..nf : \A k \in 1..(nb-1) : r.rank[f][k] >= r.rank[f][k+1], "eigenvalues in decreasing order")
     \cup When((\A f \in 1..nf : \A k \in 1..nb : InRange(r.eigs[f][k])) => \A f \in 1..nf : Ok(f),
               "eigenvalues sum to the block-averaged weighted spectral energy")

\* second moment: sum of the squared eigenvalues = ||M||_F^2, so the spectrum itself (not only its sum) is pinned
MomClauses(r, q, w) ==
  LET nb == NBlk(r)  nf == NFreq(r)
      G(f, a, b) ==  \* nb * M[a][b], scale 1000
        LET qa == q[a]  qb == q[b] IN
        << Sum(LAMBDA p : RDiv(RDiv(qa[f][p][1]*qb[f][p][1] + qa[f][p][2]*qb[f][p][2], 500) * (w[p] \div 2), 1000), 1, r.P),
           Sum(LAMBDA p : RDiv(RDiv(qa[f][p][1]*qb[f][p][2] - qa[f][p][2]*qb[f][p][1], 500) * (w[p] \div 2), 1000), 1, r.P) >>
      Sq(x) == IF Abs(x) < 40000 THEN RDiv(x * x, 100) ELSE LET y == RDiv(x, 10) IN y * y       \* (scale 100)^2
      Fro(f) == Sum(LAMBDA a : Sum(LAMBDA b : LET g == TLCEval(G(f, a, b)) IN Sq(RDiv(g[1], nb)) + Sq(RDiv(g[2], nb)), 1, nb), 1, nb)
      Sec(f) == Sum(LAMBDA k : Sq(RDiv(r.eigs[f][k], SE \div 1000)), 1, nb)
      Ok(f) == LET c == Factor(r, f)  a == c * c * Fro(f)  b == Sec(f)
               IN Abs(a - b) <= 60 + 40 * r.tol + (Max(a, b) * (2 * r.tol + 2)) \div 100
  IN When(\A f \in 1..nf : Ok(f), "eigenvalues are those of the weighted cross-spectral density (second moment)")

\* ---- modes -------------------------------------------------------------------------
\* modes: r.modes[f][k][p] = <<re, im>> scale SP; r.big[f][k]: eigenvalue non-negligible, r.mid[f][k]: well above rounding
ModeClauses(r, q, w) ==
  LET nb == NBlk(r)  nf == NFreq(r)  nm == NModes(r)  P == r.P
      Phi(f, k) == r.modes[f][k]
      Fin(f, k) == \A p \in 1..P : InRange(Phi(f, k)[p][1]) /\ InRange(Phi(f, k)[p][2])
      CMul1(a, b) == RDiv(a[1]*b[1] + a[2]*b[2], SP)      \* Re conj(a) b
      CMul2(a, b) == RDiv(a[1]*b[2] - a[2]*b[1], SP)      \* Im conj(a) b
      Ip(a, b) == << Sum(LAMBDA p : RDiv(CMul1(a[p], b[p]) * w[p], SW), 1, P),
                     Sum(LAMBDA p : RDiv(CMul2(a[p], b[p]) * w[p], SW), 1, P) >>
      OT == 12 + 3 * P
      Orth(f) == \A i \in 1..nm : r.big[f][i] => \A j \in i..nm : r.big[f][j] =>
                   LET x == TLCEval(Ip(Phi(f, i), Phi(f, j))) IN
                   IF i = j THEN Abs(x[1] - SP) <= OT /\ Abs(x[2]) <= OT ELSE Abs(x[1]) <= OT /\ Abs(x[2]) <= OT
      \* g_b = <q_b, phi>_w = sum_p conj(q_bp) w_p phi_p, scale SQ
      Gb(b, f, k) == Ip(q[b][f], Phi(f, k))
      Res(f, k) == LET g == TLCEval([b \in 1..nb |-> Gb(b, f, k)])
                       lam == RDiv(r.eigs[f][k], (SE \div 1000) * Factor(r, f))      \* scale 1000
                       MaxLam(ff) == RDiv(r.eigs[ff][1], (SE \div 1000) * Factor(r, ff))
                       Tol == 20 + 3 * P + r.tol * 10 + (r.tol * MaxLam(f)) \div 60
                   IN \A p \in 1..P :
                        LET re == RDiv(Sum(LAMBDA b : RDiv(q[b][f][p][1]*g[b][1] - q[b][f][p][2]*g[b][2], SQ), 1, nb), nb)
                            im == RDiv(Sum(LAMBDA b : RDiv(q[b][f][p][1]*g[b][2] + q[b][f][p][2]*g[b][1], SQ), 1, nb), nb)
                        IN /\ Abs(re - RDiv(lam * Phi(f, k)[p][1], SP)) <= Tol
                           /\ Abs(im - RDiv(lam * Phi(f, k)[p][2], SP)) <= Tol
  IN When(\A f \in 1..nf : \A k \in 1..nm : r.big[f][k] => Fin(f, k), "modes of non-negligible eigenvalues are finite")
     \cup (IF \A f \in 1..nf : \A k \in 1..nm : r.big[f][k] => Fin(f, k) THEN
             When(\A f \in 1..nf : Orth(f), "stored modes are orthonormal in the weighted inner product")
             \cup When(\A f \in 1..nf : \A k \in 1..nm : r.big[f][k] => Res(f, k),
                       "mode k is the eigenvector of the weighted cross-spectral density for the k-th eigenvalue")
           ELSE {})

EigVerdict(r) == LET s == Shape(r) IN IF s # {} THEN s ELSE
    LET q == Qhat(r)  w == Weights(r)  e == EigClauses(r, q, w) IN
    IF e # {} THEN e ELSE MomClauses(r, q, w)
ModeVerdict(r) == LET s == Shape(r) \cup ModeShape(r) IN IF s # {} THEN s ELSE
    LET q == Qhat(r)  w == Weights(r) IN ModeClauses(r, q, w)
====
