---- MODULE T_Proj ----
(* Observed projections.  Fixed point, scale S = 1e4, all quantities normalised to magnitude 1 (weights scale 1000).
   cols[k]: the stored modes <<f, m>> column k of modes_r is equal to.  P[k][p] modes, A[k][i] coefficients at the sampled times
   ts[i], D[i][p] mean-removed data, R[j][p] reconstruction minus stored mean at the j-th requested time, AU the coefficients handed to
   the reconstruction.  others: the same by another number of ranks. *)
EXTENDS ProjLib, TraceLib
VARIABLES l, bad
S == 10000
MulR(a, b) == RDiv(a[1]*b[1] - a[2]*b[2], S)
MulI(a, b) == RDiv(a[1]*b[2] + a[2]*b[1], S)
Mag(r, i) == Sum(LAMBDA k : Max(Abs(r.AU[k][i][1]), Abs(r.AU[k][i][2])) \div S, 1, Len(r.P))
\* model at sampled time i and point p from coefficients C
Model(r, C, i, p) == << Sum(LAMBDA k : MulR(r.P[k][p], C[k][i]), 1, Len(r.P)), Sum(LAMBDA k : MulI(r.P[k][p], C[k][i]), 1, Len(r.P)) >>
TolM(r, i) == 4 + 3 * Len(r.P) + 2 * Mag(r, i)
Residual(r) == TLCEval([i \in 1..Len(r.ts) |-> [p \in 1..r.N |-> LET m == Model(r, r.A, i, p) IN <<r.D[i][p][1] - m[1], r.D[i][p][2] - m[2]>>]])
\* <mode k, x>_w
Ip(r, k, x) == << Sum(LAMBDA p : RDiv(RDiv(r.P[k][p][1]*x[p][1] + r.P[k][p][2]*x[p][2], S) * r.W[p], 1000), 1, r.N),
                  Sum(LAMBDA p : RDiv(RDiv(r.P[k][p][1]*x[p][2] - r.P[k][p][2]*x[p][1], S) * r.W[p], 1000), 1, r.N) >>
OrthOk(r) == LET rs == Residual(r) IN
  \A i \in 1..Len(r.ts) : \A k \in 1..Len(r.P) : LET x == TLCEval(Ip(r, k, rs[i]))  t == r.N * (TolM(r, i) + 2) IN Abs(x[1]) <= t /\ Abs(x[2]) <= t
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x
RecOk(r) == LET T == Times(r.tkind, r.tlist, r.nt) IN
  \A j \in 1..Len(T) : LET t == IF T[j] < 0 THEN T[j] + r.nt ELSE T[j] IN
     In(r.ts, t) => LET i == Pos(r.ts, t) IN
        /\ Len(r.R[j]) = r.N
        /\ \A p \in 1..r.N : LET m == Model(r, r.AU, i, p) IN Abs(r.R[j][p][1] - m[1]) <= TolM(r, i) /\ Abs(r.R[j][p][2] - m[2]) <= TolM(r, i)
BandOk(r, b) == /\ r.y.n_freq_r = Len(b)
                /\ Len(r.cols) = Len(b) * r.nm
                /\ \A k \in 1..Len(r.cols) : In(r.cols[k], ColOf(b, r.nm, k))
                /\ r.conv \/ r.shapes[1] = <<Len(b) * r.nm, r.nt>>
                /\ ~r.conv \/ r.shapes[1] = <<Len(b), r.nt, r.nm>>
                /\ r.shapes[2] = r.xs \o <<r.nv>> \o (IF r.conv THEN <<Len(b), r.nm>> ELSE <<Len(b) * r.nm>>)
LabelOk(r, b) == LET lo == CHOOSE x \in SetOfSeq(b) : \A y \in SetOfSeq(b) : x <= y   hi == CHOOSE x \in SetOfSeq(b) : \A y \in SetOfSeq(b) : x >= y
                 IN /\ r.y.freq_idx_lb = lo /\ r.y.freq_idx_ub = hi
                    /\ Abs(r.ylb - r.freq[lo + 1]) <= 1 /\ Abs(r.yub - r.freq[hi + 1]) <= 1
Fails(r) ==
  When(r.shapes[3] = r.xs \o <<r.nv>>, "time mean has the shape of the grid")
  \cup When(r.shapes[4] = <<Len(Times(r.tkind, r.tlist, r.nt))>> \o r.xs \o <<r.nv>>, "reconstruction holds the requested times")
  \cup When(\E b \in Bands(r.freq, r.req) : BandOk(r, b), "the modes used are the stored modes of exactly the band requested")
  \cup When(\E b \in Bands(r.freq, r.req) : BandOk(r, b) => LabelOk(r, b), "recorded band is the band used")
  \cup When(r.fin, "results are finite")
  \cup (IF ~r.fin THEN {} ELSE
     When(r.mean <= 1, "time mean stored is that of the data")
     \cup When(~r.well \/ OrthOk(r), "residual is weighted-orthogonal to every mode of the band")
     \cup When(~r.gap \/ r.normal <= 10 * r.cond, "coefficients satisfy the normal equations of the band")
     \cup When(r.shapes[4][1] # Len(Times(r.tkind, r.tlist, r.nt)) \/ RecOk(r), "reconstruction is modes times coefficients plus mean at the requested times")
     \cup When(~r.full \/ r.fulldiff <= 1, "data in the span of the modes is reproduced")
     \cup When(r.againdiff <= 1 \/ ~r.gap, "projecting a reconstruction reproduces it")
     \cup UNION {LET o == r.others[k] IN
          When(o[3] <= 1 /\ o[4] <= 1 /\ o[6] = 0, "auxiliary files are the same for any number of ranks")
          \cup When(~r.gap \/ o[2] <= 10 * r.cond, "coefficients are the same for any number of ranks")
          \cup When(~r.gap \/ o[5] <= 10 * r.cond, "reconstruction is the same for any number of ranks") : k \in 1..Len(r.others)})
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
