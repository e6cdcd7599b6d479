---- MODULE T_Ortho ----
(* Answers of the orthogonality check for chosen modes a x b at one frequency, by groups of ranks of several sizes.
   P: columns of the stored modes times the square root of the weights (scale 5000), O: the values (scale 10^7), ok: the verdicts. *)
EXTENDS TraceLib
LOCAL INSTANCE VLib
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
VARIABLES l, bad
S == 5000
\* a mode of an eigenvalue that vanishes may be of any size: only modes of about unit norm can be compared
Usable(p) == \A q \in DOMAIN p : Abs(p[q][1]) <= S + 50 /\ Abs(p[q][2]) <= S + 50
Re(p, q) == Sum(LAMBDA k : p[k][1] * q[k][1] + p[k][2] * q[k][2], 1, Len(p))
Im(p, q) == Sum(LAMBDA k : p[k][1] * q[k][2] - p[k][2] * q[k][1], 1, Len(p))
\* what rounding the entries of the modes can do to their product
Slack(p, q) == Sum(LAMBDA k : Abs(p[k][1]) + Abs(p[k][2]) + Abs(q[k][1]) + Abs(q[k][2]) + 2, 1, Len(p))
Product(o, p, q) == LET t == Slack(p, q) + 20 IN Abs(5 * o[1] - 2 * Re(p, q)) <= t /\ Abs(5 * o[2] - 2 * Im(p, q)) <= t
One == 10000000
Off(o, same) == Max(Abs(o[1] - (IF same THEN One ELSE 0)), Abs(o[2]))
Fails1(r, x) ==
  IF ~x.good THEN {"one value and one verdict per pair of modes"} ELSE
  LET A == 1..Len(r.a)
      B == 1..Len(r.b)
      Pa(i) == r.P[r.a[i] + 1]
      Pb(j) == r.P[r.b[j] + 1]
      U == {<<i, j>> \in A \X B : Usable(Pa(i)) /\ Usable(Pb(j))}
      D(i, j) == Off(x.O[i][j], r.a[i] = r.b[j])
  IN When(\A u \in U : Product(x.O[u[1]][u[2]], Pa(u[1]), Pb(u[2])), "value is the weighted inner product of the two modes")
     \cup When(\A i \in A : \A j \in B : D(i, j) < 10 => x.ok[i][j], "orthonormal modes are said to be")
     \cup When(\A i \in A : \A j \in B : D(i, j) > 30 => ~x.ok[i][j], "modes that are not orthonormal are not said to be")
     \cup When(\A u \in U : r.recs[1].good => Abs(x.O[u[1]][u[2]][1] - r.recs[1].O[u[1]][u[2]][1]) <= 2 /\ Abs(x.O[u[1]][u[2]][2] - r.recs[1].O[u[1]][u[2]][2]) <= 2,
             "value does not depend on the number of ranks")
Fails(r) == When(\A i \in DOMAIN r.a : r.a[i] < Len(r.P), "modes exist") \cup UNION {Fails1(r, r.recs[i]) : i \in DOMAIN r.recs}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
