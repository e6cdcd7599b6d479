---- MODULE Plots ----
(* The pictures of a request: the artist turns to every requested variable and mode in turn, takes the field, rolls it, orients it,
   crops it to the window and draws it under the name of the variable and mode.  Checked for every small shape, window and shift:
   each requested picture is drawn once, and every cell carries the value of the grid point whose coordinates it is drawn at. *)
EXTENDS PlotLib
CONSTANTS N, NV, NM
VARIABLES n1, n2, sq, h, s, w1, w2, todo, field, stage, drawn
vars == <<n1, n2, sq, h, s, w1, w2, todo, field, stage, drawn>>
L1 == IF sq THEN n2 ELSE n1          \* sq: rows along the vertical axis
L2 == IF sq THEN n1 ELSE n2
Init == /\ n1 \in 2..N /\ n2 \in 2..N /\ sq \in BOOLEAN /\ h \in BOOLEAN /\ s \in BOOLEAN
        /\ \E b \in 2..N : b <= L1 /\ \E a \in 0..b - 2 : w1 = <<a, b>>
        /\ \E b \in 2..N : b <= L2 /\ \E a \in 0..b - 2 : w2 = <<a, b>>
        /\ todo = [k \in 1..NV * NM |-> <<(k - 1) \div NM, (k - 1) % NM>>]
        /\ field = <<>> /\ stage = "idle" /\ drawn = <<>>
V(v, m, i, j) == ((v * NM + m) * N + i) * N + j + 1
Take == /\ stage = "idle" /\ todo # <<>> /\ stage' = "taken"
        /\ field' = [i \in 1..n1 |-> [j \in 1..n2 |-> V(Head(todo)[1], Head(todo)[2], i - 1, j - 1)]]
        /\ UNCHANGED <<n1, n2, sq, h, s, w1, w2, todo, drawn>>
Roll == /\ stage = "taken" /\ stage' = "rolled"
        /\ field' = IF s THEN [i \in 1..n1 |-> [j \in 1..n2 |-> IF j <= n2 \div 2 THEN field[i][j + (n2 - (n2 \div 2))] ELSE field[i][j - (n2 \div 2)]]] ELSE field
        /\ UNCHANGED <<n1, n2, sq, h, s, w1, w2, todo, drawn>>
Turn == /\ stage = "rolled" /\ stage' = "turned"
        /\ field' = IF L1 # n2 \/ L2 # n1 THEN [j \in 1..n2 |-> [i \in 1..n1 |-> field[i][j]]] ELSE field
        /\ UNCHANGED <<n1, n2, sq, h, s, w1, w2, todo, drawn>>
Half180 == /\ stage = "turned" /\ stage' = "halved"
           /\ field' = IF h THEN [r \in 1..L2 |-> [c \in 1..L1 |-> IF c <= L1 - (L1 \div 2) THEN field[r][c + (L1 \div 2)] ELSE field[r][c - (L1 - (L1 \div 2))]]] ELSE field
           /\ UNCHANGED <<n1, n2, sq, h, s, w1, w2, todo, drawn>>
Draw == /\ stage = "halved" /\ stage' = "idle" /\ todo' = Tail(todo)
        /\ drawn' = Append(drawn, [id |-> Head(todo), z |-> [r \in 1..w2[2] - w2[1] |-> [c \in 1..w1[2] - w1[1] |-> field[w2[1] + r][w1[1] + c]]]])
        /\ field' = <<>> /\ UNCHANGED <<n1, n2, sq, h, s, w1, w2>>
Next == Take \/ Roll \/ Turn \/ Half180 \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == \A k \in DOMAIN drawn : \A r \in 1..w2[2] - w2[1] : \A c \in 1..w1[2] - w1[1] :
  LET p == At(n1, n2, L1, L2, h, s, w2[1] + r - 1, w1[1] + c - 1) IN drawn[k].z[r][c] = V(drawn[k].id[1], drawn[k].id[2], p[1], p[2])
Once == \A a, b \in DOMAIN drawn : drawn[a].id = drawn[b].id => a = b
AllDrawn == <>(Len(drawn) = NV * NM)
Bij == \A n \in 1..N : \A a, b \in 0..n - 1 : Src(n, h, s, a) = Src(n, h, s, b) => a = b
====
