---- MODULE T_Geo ----
(* Observed weights w (flat, scale 10^6 per longitude spacing) of a grid, and the weights a fit stored for data of the grid. *)
EXTENDS TraceLib
LOCAL INSTANCE Kernels
LOCAL INSTANCE VLib
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
VARIABLES l, bad
G == INSTANCE Geo WITH N1 <- 3, N2 <- 1, N3 <- 1, NV <- 1, RS <- 1, n1 <- 3, n2 <- 1, n3 <- 1, nv <- 1, R <- 1, i <- 0, acc <- 0
Grid(r) == IF r.dims = 2 THEN <<r.n1, r.n2>> ELSE <<r.n1, r.n2, r.n3>>        \* the axis of a single variable may be missing
Sh(r) == <<r.n1, r.n2, r.n3, r.nv>>
Size(r) == r.n1 * r.n2 * r.n3 * r.nv
Right(r, s, q) == LET p == G!Point(Sh(r), q) IN Abs(s[q + 1] - G!W(r.n1, r.R, p[1])) <= r.R * r.R + 1
\* all the same along the meridians, levels and variables
Same(r, s, q, k) == LET p == G!Point(Sh(r), q) IN Abs(s[q + 1] - s[G!Flat(Sh(r), <<p[1], r.n2 - 1, 0, 0>>) + 1]) <= k
Rest(r) == {q \in 0..Size(r) - 1 : G!Point(Sh(r), q)[2] # 0}
First(r) == (0..Size(r) - 1) \ Rest(r)
Fails(r) ==
  When(r.shape = Append(Grid(r), r.nv) \/ (r.nv = 1 /\ r.shape = Grid(r)), "one weight per point, laid out like the data")
  \cup When(r.named /\ r.real, "weights are real and named")
  \cup (IF Len(r.w) # Size(r) THEN {"one weight per point and variable"} ELSE
        When(\A q \in Rest(r) : Right(r, r.w, q), "weight is the area of the cell")
        \cup When(\A q \in Rest(r) : Same(r, r.w, q, 1), "weight is the same at every longitude, level and variable")
        \cup When(\A q \in First(r) : Right(r, r.w, q), "weight of the first longitude is the area of the cell")
        \cup When(\A q \in 0..Size(r) - 1 : r.w[q + 1] >= 0, "weights are not negative"))
  \cup (IF ~r.fitted THEN {} ELSE IF Len(r.used) # Size(r) THEN {"a fit keeps one weight per point"} ELSE
        LET m == CHOOSE x \in {Max(1, CHOOSE y \in {r.w[q] : q \in DOMAIN r.w} : \A q \in DOMAIN r.w : y >= r.w[q])} : TRUE IN
        When(\A q \in 1..Size(r) : Abs(r.used[q] - r.w[q]) <= 1 + (m \div 500000), "a fit uses the weight of a point for that point"))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
