---- MODULE Spmd ----
(* The distributed batch SPOD as a concurrent computation.  Every rank owns a slab of the points (possibly empty), forms the
   weighted Gram matrix of its slab, the ranks' matrices are added in any order (Allreduce); then the modes (one per file)
   travel in passes: in pass k file k*P + w is written by rank w, which receives one padded message from every rank in any
   order and compacts the paddings in place.  Invariants: the reduced matrix is the Gram matrix of the whole field; every
   file is written once, by one rank, and holds the whole mode in point order. *)
EXTENDS VLib
CONSTANTS MaxX, MaxP, MaxFiles, Vals
VARIABLES X, P, F, q, acc, toadd, pass, buf, inbox, files
vars == <<X, P, F, q, acc, toadd, pass, buf, inbox, files>>
Cnt(r) == CountOf(X, P, r)
St(r) == StartOf(X, P, r)
Pad == CountOf(X, P, 0)
Part(r, a, b) == Sum(LAMBDA p : q[a][p] * q[b][p], St(r) + 1, St(r) + Cnt(r))
Whole(a, b) == Sum(LAMBDA p : q[a][p] * q[b][p], 1, X)
Init == /\ X \in 1..MaxX /\ P \in 1..MaxP /\ F \in 1..MaxFiles
        /\ q \in [1..2 -> [1..X -> Vals]]
        /\ acc = [a \in 1..2 |-> [b \in 1..2 |-> 0]] /\ toadd = 0..(P - 1)
        /\ pass = 0 /\ buf = <<>> /\ inbox = {} /\ files = [f \in 0..(F - 1) |-> <<>>]
Add == \E r \in toadd : toadd' = toadd \ {r} /\ acc' = [a \in 1..2 |-> [b \in 1..2 |-> acc[a][b] + Part(r, a, b)]]
       /\ UNCHANGED <<X, P, F, q, pass, buf, inbox, files>>
\* one pass: writers w with pass*P + w < F; messages <<w, r>>
Writers == {w \in 0..(P - 1) : pass * P + w < F}
Passes == CeilDiv(F, P)
Begin == toadd = {} /\ pass < Passes /\ buf = <<>> /\ inbox = {}
         /\ buf' = [w \in Writers |-> [i \in 1..(Pad * P) |-> 0]] /\ inbox' = Writers \X (0..(P - 1))
         /\ UNCHANGED <<X, P, F, q, acc, toadd, pass, files>>
\* value at point p of file f: 100*f + p
Recv == \E m \in inbox : inbox' = inbox \ {m}
        /\ buf' = [buf EXCEPT ![m[1]] = [i \in 1..(Pad * P) |-> IF i > Pad * m[2] /\ i <= Pad * (m[2] + 1)
                       THEN (IF i - Pad * m[2] <= Cnt(m[2]) THEN 100 * (pass * P + m[1]) + St(m[2]) + i - Pad * m[2] ELSE 0) ELSE @[i]]]
        /\ UNCHANGED <<X, P, F, q, acc, toadd, pass, files>>
RECURSIVE Compact(_, _)
Compact(b, r) == IF r = P THEN b ELSE
  Compact([i \in 1..Len(b) |-> IF i > St(r) /\ i <= St(r) + Cnt(r) THEN b[Pad * r + i - St(r)] ELSE b[i]], r + 1)
Store == pass < Passes /\ buf # <<>> /\ inbox = {}
         /\ files' = [f \in 0..(F - 1) |-> IF f >= pass * P /\ f < pass * P + P THEN files[f] \o SubSeq(Compact(buf[f - pass * P], 0), 1, X) ELSE files[f]]
         /\ pass' = pass + 1 /\ buf' = <<>> /\ UNCHANGED <<X, P, F, q, acc, toadd, inbox>>
Next == Add \/ Begin \/ Recv \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Gram == toadd = {} => \A a, b \in 1..2 : acc[a][b] = Whole(a, b)
Files == pass = Passes => \A f \in 0..(F - 1) : files[f] = [p \in 1..X |-> 100 * f + p]
Finishes == <>(pass = Passes)
====
