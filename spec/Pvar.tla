---- MODULE Pvar ----
(* Merging of partial (count, mean, variance) triples in exact rationals: any assignment of the values to the ranks (ranks
   with no value included), any merge tree.  The merged triple is that of the undivided data. *)
EXTENDS VLib
CONSTANTS Vals, MaxN, MaxP
VARIABLES pool, data
vars == <<pool, data>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(x) == LET g == Gcd(Abs(x[1]), x[2]) IN IF x[1] = 0 THEN <<0, 1>> ELSE <<x[1] \div g, x[2] \div g>>
Add(x, y) == Norm(<<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>)
Mul(x, y) == Norm(<<x[1] * y[1], x[2] * y[2]>>)
Sub(x, y) == Add(x, <<-y[1], y[2]>>)
R(n) == <<n, 1>>
Div(x, n) == Norm(<<x[1], x[2] * n>>)
Stat(s) == IF s = <<>> THEN <<0, R(0), R(0)>> ELSE
  LET n == Len(s)  m == Norm(<<SumSeq(s), n>>)
      q == Norm(<<Sum(LAMBDA i : s[i] * s[i], 1, n), n>>)
  IN <<n, m, Sub(q, Mul(m, m))>>
Merge(a, b) == LET n == a[1] + b[1] IN IF n = 0 THEN <<0, R(0), R(0)>> ELSE
  LET m == Div(Add(Mul(R(a[1]), a[2]), Mul(R(b[1]), b[2])), n)
      d == Sub(a[2], b[2])
      v == Div(Add(Add(Mul(R(a[1]), a[3]), Mul(R(b[1]), b[3])), Div(Mul(R(a[1] * b[1]), Mul(d, d)), n)), n)
  IN <<n, m, v>>
Init == \E n \in 0..MaxN : \E d \in [1..n -> Vals] : \E P \in 1..MaxP : \E own \in [1..n -> 1..P] :
          /\ data = d
          /\ pool = [p \in 1..P |-> Stat(SelectSeq([i \in 1..n |-> IF own[i] = p THEN d[i] ELSE 1000], LAMBDA x : x < 1000))]
Next == \E i, j \in 1..Len(pool) : i # j
          /\ LET k == Min(i, j)  g == Max(i, j) IN
             pool' = [x \in 1..(Len(pool) - 1) |-> IF x = k THEN Merge(pool[i], pool[j]) ELSE IF x < g THEN pool[x] ELSE pool[x + 1]]
          /\ UNCHANGED data
Spec == Init /\ [][Next]_vars
Exact == Len(pool) = 1 => pool[1] = Stat(data)
Known == Sum(LAMBDA p : pool[p][1], 1, Len(pool)) = Len(data)
====
