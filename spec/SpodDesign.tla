---- MODULE SpodDesign ----
(* Design of the batch algorithm for n_dft = 4 (exact integer kernel): blocks are transformed one after the other in
   any order, contribute to the weighted cross-spectral matrix, and the spectrum is reported one-sided with interior
   frequencies doubled.  All records over Vals, all block orders, all ways of splitting space over two ranks. *)
EXTENDS VLib
CONSTANTS NT, P, Vals, Stride4
N == 4
Win == <<8, 77, 77, 8>>
Wt == [p \in 1..P |-> p]          \* weights 1, 2, ...
NB == (NT - (N - Stride4)) \div Stride4
VARIABLES d, todo, Q, M, owner
vars == <<d, todo, Q, M, owner>>
\* (-i)^k
Rot(k, x) == CASE k % 4 = 0 -> <<x, 0>> [] k % 4 = 1 -> <<0, -x>> [] k % 4 = 2 -> <<-x, 0>> [] OTHER -> <<0, x>>
\* one block at one point; f = 0..3
DFT(b, p, f) == LET z(t) == Rot(f * t, Win[t+1] * d[b * Stride4 + t + 1][p]) IN << Sum(LAMBDA t : z(t)[1], 0, 3), Sum(LAMBDA t : z(t)[2], 0, 3) >>
Blocks == 0..(NB-1)
Init == /\ d \in [1..NT -> [1..P -> Vals]]
        /\ owner \in [1..P -> {0, 1}]
        /\ todo = Blocks /\ Q = [b \in Blocks |-> <<>>] /\ M = <<>>
Transform(b) == /\ b \in todo
                /\ Q' = [Q EXCEPT ![b] = [f \in 0..3 |-> [p \in 1..P |-> DFT(b, p, f)]]]
                /\ todo' = todo \ {b} /\ UNCHANGED <<d, M, owner>>
Part(f, a, b, r) == \* the contribution of rank r to M[a][b]
  << Sum(LAMBDA p : IF owner[p] = r THEN Wt[p] * (Q[a][f][p][1]*Q[b][f][p][1] + Q[a][f][p][2]*Q[b][f][p][2]) ELSE 0, 1, P),
     Sum(LAMBDA p : IF owner[p] = r THEN Wt[p] * (Q[a][f][p][1]*Q[b][f][p][2] - Q[a][f][p][2]*Q[b][f][p][1]) ELSE 0, 1, P) >>
Reduce == /\ todo = {} /\ M = <<>>
          /\ M' = [f \in 0..3 |-> [a \in Blocks |-> [b \in Blocks |->
                     LET x == Part(f, a, b, 0)  y == Part(f, a, b, 1) IN << x[1] + y[1], x[2] + y[2] >>]]]
          /\ UNCHANGED <<d, todo, Q, owner>>
Next == (\E b \in Blocks : Transform(b)) \/ Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fin == M # <<>>
\* --- properties ---
Inside == \A b \in Blocks : b * Stride4 + N <= NT
Conj == Fin => \A b \in Blocks, p \in 1..P : /\ Q[b][3][p][1] = Q[b][1][p][1] /\ Q[b][3][p][2] = -Q[b][1][p][2]
                                            /\ Q[b][0][p][2] = 0 /\ Q[b][2][p][2] = 0
Hermitian == Fin => \A f \in 0..3, a, b \in Blocks : M[f][a][b][1] = M[f][b][a][1] /\ M[f][a][b][2] = -M[f][b][a][2]
Psd == Fin => \A f \in 0..3, a, b \in Blocks : /\ M[f][a][a][1] >= 0
          /\ (a # b => (M[f][a][a][1] \div 10) * (M[f][b][b][1] \div 10) + 40000 >= (Abs(M[f][a][b][1]) \div 10)^2 + (Abs(M[f][a][b][2]) \div 10)^2 - 2*(M[f][a][a][1] + M[f][b][b][1]))
Energy(f) == Sum(LAMBDA b : Sum(LAMBDA p : Wt[p] * (Q[b][f][p][1]^2 + Q[b][f][p][2]^2), 1, P), 0, NB - 1)
TraceIsEnergy == Fin => \A f \in 0..3 : Sum(LAMBDA b : M[f][b][b][1], 0, NB-1) = Energy(f)
OneSidedTotal == Fin => Energy(0) + 2 * Energy(1) + Energy(2) = Energy(0) + Energy(1) + Energy(2) + Energy(3)
Parseval == Fin => Energy(0) + Energy(1) + Energy(2) + Energy(3)
              = N * Sum(LAMBDA b : Sum(LAMBDA p : Sum(LAMBDA t : Wt[p] * (Win[t+1] * d[b * Stride4 + t + 1][p])^2, 0, 3), 1, P), 0, NB-1)
Completes == <>Fin
====
