---- MODULE Stream ----
(* The streaming algorithm snapshot by snapshot: slots take in snapshots, complete windows, are queued again; the snapshots come
   from one data set or several.  Checked: every snapshot is taken from its data set once, in order; a slot's window is n
   consecutive snapshots with the window function in step; never do two slots complete with the same snapshot (one would be
   lost: there is one update per snapshot); windows never start less than dn nor more than dn + 1 apart; the completed windows are those of
   the function StreamRef!Windows that the trace specification uses; the weights of the updates in C have the closed form. *)
EXTENDS StreamRef
CONSTANTS MaxN, MaxT, MaxSets
VARIABLES n, dn, nt, sets, ti, slot, cont, wins, coef, taken
vars == <<n, dn, nt, sets, ti, slot, cont, wins, coef, taken>>
K == NSlots(n, dn)
RECURSIVE Splits(_, _)
Splits(N, k) == IF k = 1 THEN {<<N>>} ELSE UNION {{<<a>> \o s : s \in Splits(N - a, k - 1)} : a \in 1..(N - 1)}
Init == /\ n \in 4..MaxN /\ dn \in 1..n /\ nt \in n..MaxT
        /\ sets \in UNION {Splits(nt, k) : k \in 1..MaxSets}
        /\ ti = 0 /\ slot = Start0(n, dn) /\ cont = [j \in 1..K |-> <<>>] /\ wins = <<>> /\ coef = <<>> /\ taken = <<>>
\* snapshot t of the record is snapshot Where(t)[2] of data set Where(t)[1]
RECURSIVE Find(_, _)
Find(t, k) == IF t < sets[k] THEN <<k, t>> ELSE Find(t - sets[k], k + 1)
Fed(j) == IF slot[j] >= 0 THEN Append(cont[j], <<slot[j], ti>>) ELSE cont[j]
RECURSIVE Run(_, _)
Run(s, j) == IF j > Len(s) THEN s ELSE Run([s EXCEPT ![j] = IF @ = n - 1 THEN MinSeq(s) - dn ELSE @ + 1], j + 1)
Full == {j \in 1..K : slot[j] = n - 1}
Take == /\ ti < nt
        /\ taken' = Append(taken, Find(ti, 1))
        /\ cont' = [j \in 1..K |-> IF j \in Full THEN <<>> ELSE Fed(j)]
        /\ slot' = Run(slot, 1)
        /\ IF Full = {} THEN UNCHANGED <<wins, coef>>
           ELSE LET j == CHOOSE j \in Full : TRUE  b == Len(wins) + 1 IN
                wins' = Append(wins, <<Fed(j), ti>>)
                \* numerators over denominators of the terms of C after update b
                /\ coef' = IF b > 4 THEN <<>> ELSE Append([q \in 1..Len(coef) |-> <<coef[q][1] * (b + 1), coef[q][2] * (b + 2)>>], <<b + 1, (b + 2) * (b + 2)>>)
        /\ ti' = ti + 1 /\ UNCHANGED <<n, dn, nt, sets>>
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneWindow == Cardinality(Full) <= 1
Consecutive == \A w \in DOMAIN wins : wins[w][1] = [k \in 1..n |-> <<k - 1, wins[w][2] - n + k>>]
Spacing == \A w \in 1..(Len(wins) - 1) : wins[w + 1][2] - wins[w][2] \in {dn, dn + 1}
First == Len(wins) > 0 => wins[1][2] = n - 1
RECURSIVE Before(_)
Before(k) == IF k = 1 THEN 0 ELSE Before(k - 1) + sets[k - 1]
Order == \A t \in 1..ti : Before(taken[t][1]) + taken[t][2] = t - 1 /\ taken[t][2] < sets[taken[t][1]]
AsFunction == ti = nt => [w \in DOMAIN wins |-> wins[w][2]] = Windows(n, dn, nt)
Closed == LET B == Len(coef) IN \A b \in 1..B : (B <= 4) => coef[b][1] * ((b + 2) * (B + 2)) = coef[b][2] * (b + 1)
NoMore == ti = nt => Len(wins) <= (nt - (n - dn)) \div dn
Drains == <>(ti = nt)
====
