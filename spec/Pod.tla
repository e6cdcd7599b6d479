---- MODULE Pod ----
(* Method of snapshots by several ranks over a prime field (exact arithmetic): every rank forms its part of Q = d* W d from its
   slab of points, in any order; all ranks take the same eigenpairs of Q; every rank writes its slab of phi_i = d v_i; another
   group of ranks forms the projections and the reconstruction slab by slab.  Checked for every content, weight and pair of
   partitions: the Gram matrix is that of the whole record; modes of different eigenvalues are orthogonal in the weighted inner
   product; the squared norm of phi_i is the eigenvalue; the projections are eigenvalue times v and mutually uncorrelated; the
   result of the second group does not depend on its partition.  Splits of the record: the place a snapshot is loaded to. *)
EXTENDS ProjLib
CONSTANTS F, N, T, MaxRanks
VARIABLES d, w, n1, n2, cut, pc, stage, mem, Q, file, A, rec
vars == <<d, w, n1, n2, cut, pc, stage, mem, Q, file, A, rec>>
Fld == 0..(F - 1)
Slab(n, r) == {StartOf(N, n, r) + i : i \in 1..CountOf(N, n, r)}
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN (f[x] + SumSet(f, s \ {x})) % F
Gram(s, dd) == [i \in 1..T |-> [j \in 1..T |-> SumSet([p \in 1..N |-> (dd[i][p] * dd[j][p] * w[p]) % F], s)]]
Plus(a, b) == [i \in 1..T |-> [j \in 1..T |-> (a[i][j] + b[i][j]) % F]]
ZeroQ == [i \in 1..T |-> [j \in 1..T |-> 0]]
Vec == [1..T -> Fld]
MatVec(q, v) == [i \in 1..T |-> SumSet([j \in 1..T |-> (q[i][j] * v[j]) % F], 1..T)]
Dot(v, u) == SumSet([i \in 1..T |-> (v[i] * u[i]) % F], 1..T)
Eig(q) == {<<l, v>> \in Fld \X (Vec \ {[i \in 1..T |-> 0]}) : \A i \in 1..T : MatVec(q, v)[i] = (l * v[i]) % F}
Phi(v, dd) == [p \in 1..N |-> SumSet([i \in 1..T |-> (dd[i][p] * v[i]) % F], 1..T)]
Proj(ph, dd, s) == [i \in 1..T |-> SumSet([p \in 1..N |-> (ph[p] * w[p] * dd[i][p]) % F], s)]
Ip(x, y) == SumSet([p \in 1..N |-> (x[p] * y[p] * w[p]) % F], 1..N)
Nil == [p \in 1..N |-> -1]
Init == /\ d \in [1..T -> [1..N -> Fld]] /\ w \in [1..N -> 1..(F - 1)]
        /\ n1 \in 1..MaxRanks /\ n2 \in 1..MaxRanks /\ cut \in 1..T
        /\ pc = 0..(n1 - 1) /\ stage = "load" /\ mem = [i \in 1..T |-> Nil] /\ Q = ZeroQ
        /\ file = {} /\ A = {} /\ rec = Nil
\* a rank loads its slab: first data set holds snapshots 1..cut, the second the rest
Load(r) == /\ stage = "load" /\ r \in pc /\ pc' = pc \ {r}
           /\ LET set1 == [i \in 1..cut |-> d[i]]  set2 == [i \in 1..(T - cut) |-> d[cut + i]] IN
              mem' = [i \in 1..T |-> [p \in 1..N |-> IF p \in Slab(n1, r) THEN (IF i <= cut THEN set1[i][p] ELSE set2[i - cut][p]) ELSE mem[i][p]]]
           /\ UNCHANGED <<d, w, n1, n2, cut, stage, Q, file, A, rec>>
Loaded == stage = "load" /\ pc = {} /\ stage' = "gram" /\ pc' = 0..(n1 - 1) /\ UNCHANGED <<d, w, n1, n2, cut, mem, Q, file, A, rec>>
Part(r) == /\ stage = "gram" /\ r \in pc /\ pc' = pc \ {r} /\ Q' = Plus(Q, Gram(Slab(n1, r), mem))
           /\ UNCHANGED <<d, w, n1, n2, cut, stage, mem, file, A, rec>>
\* modes of all eigenpairs, slab by slab (the file of modes is one entry per eigenpair)
Solve == /\ stage = "gram" /\ pc = {} /\ stage' = "proj" /\ pc' = 0..(n2 - 1)
         /\ file' = {<<e[1], e[2], Phi(e[2], mem)>> : e \in Eig(Q)}
         /\ A' = {<<e[1], e[2], [i \in 1..T |-> 0]>> : e \in Eig(Q)}
         /\ UNCHANGED <<d, w, n1, n2, cut, mem, Q, rec>>
Project(r) == /\ stage = "proj" /\ r \in pc /\ pc' = pc \ {r}
              /\ A' = {<<x[1], x[2], [i \in 1..T |-> (x[3][i] + Proj(Phi(x[2], mem), d, Slab(n2, r))[i]) % F]>> : x \in A}
              /\ UNCHANGED <<d, w, n1, n2, cut, stage, mem, Q, file, rec>>
Next == Loaded \/ Solve \/ \E r \in 0..(MaxRanks - 1) : Load(r) \/ Part(r) \/ Project(r)
Spec == Init /\ [][Next]_vars
AllLoaded == stage # "load" => mem = d
GramWhole == stage = "proj" => Q = Gram(1..N, d)
Symmetric == stage = "proj" => \A i, j \in 1..T : Q[i][j] = Q[j][i]
Orthogonal == stage = "proj" => \A x, y \in file : x[1] # y[1] => Ip(x[3], y[3]) = 0
Energy == stage = "proj" => \A x \in file : Ip(x[3], x[3]) = (x[1] * Dot(x[2], x[2])) % F
Coefficients == (stage = "proj" /\ pc = {}) => \A x \in A : \A i \in 1..T : x[3][i] = (x[1] * x[2][i]) % F
Uncorrelated == (stage = "proj" /\ pc = {}) => \A x, y \in A : x[1] # y[1] => Dot(x[3], y[3]) = 0
====
