---- MODULE Grid ----
(* Distribution of one axis of N points over Size ranks: every rank independently takes its slab; whatever the order in
   which the ranks act, the slabs partition the axis. *)
EXTENDS VLib
CONSTANTS MaxN, MaxSize
VARIABLES N, size, slab
Ranks == 0..(size - 1)
Init == N \in 0..MaxN /\ size \in 1..MaxSize /\ slab = [r \in 0..(MaxSize-1) |-> <<>>]
Take(r) == slab[r] = <<>> /\ slab' = [slab EXCEPT ![r] = <<StartOf(N, size, r), StartOf(N, size, r) + CountOf(N, size, r)>>] /\ UNCHANGED <<N, size>>
Next == \E r \in Ranks : Take(r)
Spec == Init /\ [][Next]_<<N, size, slab>>
Taken == {r \in Ranks : slab[r] # <<>>}
Pts(r) == slab[r][1]..(slab[r][2] - 1)
Disjoint == \A a, b \in Taken : a # b => Pts(a) \cap Pts(b) = {}
Order == \A a, b \in Taken : a < b => slab[a][2] <= slab[b][1]
Balanced == \A a, b \in Taken : Abs((slab[a][2] - slab[a][1]) - (slab[b][2] - slab[b][1])) <= 1
Complete == Taken = Ranks => UNION {Pts(r) : r \in Ranks} = 0..(N-1)
Owned == Taken = Ranks => Sum(LAMBDA r : slab[r][2] - slab[r][1], 0, size - 1) = N
====
