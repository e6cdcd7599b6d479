---- MODULE MpiSem ----
(* What P ranks that run given programs of MPI and file-system operations may do.  R.prog[r] is the program of rank r (1-based): operations
     coll / icoll   collective on communicator comm, the seq-th there of this rank; cls: all | down (root sends) | up | scan
     send / recv    post of a message, the seq-th on channel ch (sender, receiver, tag)
     wait           completion of the posts listed in of
     fs             file-system access, act: W create/overwrite, C collective write, R read, T test, L list, E make directory if absent,
                    M make directory, D delete; path is a sequence of names.
   Mode "sync": collectives and sends complete only when everybody involved has arrived - a program that needs buffering can
   get stuck.  Mode "free": as little synchronisation as the standard promises - two conflicting accesses may meet.
   Posting, entering and completing are monotone (they never disable anything), so with Eager they are taken at once and only
   file-system accesses are interleaved; without Eager everything is. *)
EXTENDS VLib, TraceLib, MpiProgs
LOCAL INSTANCE IOUtils
CONSTANTS Eager, NRanks
\* recorded programs, or the designed ones when there is no recording
Scens == IF "TRACE" \in DOMAIN IOEnv THEN Trace ELSE ProgramsFor(NRanks)
VARIABLES sc, mode, pc, inn, ent, snd, rcv, stop
vars == <<sc, mode, pc, inn, ent, snd, rcv, stop>>
R == Scens[sc]
Ranks == DOMAIN pc
Prog(r) == R.prog[r]
AtEnd(r) == pc[r] > Len(Prog(r))
Op(r) == Prog(r)[pc[r]]
\* ---- file-system conflicts ----
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Clash(a, b) == \* one direction
  \/ a.path = b.path /\ \/ a.act = "W" /\ b.act \in {"W", "C", "R", "T", "L", "D", "E", "M"}
                        \/ a.act = "C" /\ b.act \in {"R", "T", "L", "D", "E", "M"}
                        \/ a.act = "D" /\ b.act \in {"D", "R", "T", "L", "E", "M"}
                        \/ a.act = "M" /\ b.act \in {"M", "E", "T", "L"}
  \/ a.act = "L" /\ b.act \in {"W", "C", "D", "E", "M"} /\ Len(b.path) > 0 /\ Parent(b.path) = a.path
  \/ a.act = "D" /\ Below(a.path, b.path)
  \/ a.act \in {"E", "M"} /\ Below(a.path, b.path) /\ b.act \in {"W", "C", "L"}
\* the rank made sure of the directory itself
Ensured(s, r, i, d) == \E j \in 1..(i - 1) : LET o == Scens[s].prog[r][j] IN o.k = "fs" /\ o.act \in {"E", "M", "T"} /\ o.path = d
Conflict(s, r, i, q, j) == LET a == Scens[s].prog[r][i]  b == Scens[s].prog[q][j] IN
  \/ Clash(a, b) /\ ~(a.act = "E" /\ Below(a.path, b.path) /\ Ensured(s, q, j, a.path))
  \/ Clash(b, a) /\ ~(b.act = "E" /\ Below(b.path, a.path) /\ Ensured(s, r, i, b.path))
FsOps(s, r) == TLCEval({i \in DOMAIN Scens[s].prog[r] : Scens[s].prog[r][i].k = "fs"})
\* accesses that have a conflicting partner in another rank; the others are local steps
Relevant == TLCEval([s \in DOMAIN Scens |-> LET F == TLCEval([r \in DOMAIN Scens[s].prog |-> FsOps(s, r)]) IN
   [r \in DOMAIN Scens[s].prog |-> {i \in F[r] : \E q \in DOMAIN Scens[s].prog : q # r /\ \E j \in F[q] : Conflict(s, r, i, q, j)}]])
AtFs(r) == ~AtEnd(r) /\ mode = "free" /\ pc[r] \in Relevant[sc][r]
\* ---- completion ----
Done(r, o) ==
  LET M == R.comms[o.comm]
      E(q) == ent[q][o.comm] >= o.seq
      full == \A q \in SetOfSeq(M) : E(q)
      Pos(q) == CHOOSE k \in DOMAIN M : M[k] = q
  IN IF mode = "sync" THEN full
     ELSE CASE o.cls = "down" -> E(M[o.root + 1]) [] o.cls = "up" -> (M[o.root + 1] = r => full)
            [] o.cls = "scan" -> \A k \in 1..Pos(r) : E(M[k]) [] OTHER -> full
Ready(r, o) == CASE o.k = "send" -> (mode = "free" \/ rcv[o.ch] >= o.seq) [] o.k = "recv" -> snd[o.ch] >= o.seq [] OTHER -> Done(r, o)
Can(r) == ~AtEnd(r) /\ LET o == Op(r) IN CASE o.k = "coll" -> (inn[r] = 0 \/ Done(r, o)) [] o.k = "wait" -> (\A i \in SetOfSeq(o.of) : Ready(r, Prog(r)[i])) [] OTHER -> TRUE
Step(r) == LET o == Op(r) IN
  /\ pc' = [pc EXCEPT ![r] = IF o.k = "coll" /\ inn[r] = 0 THEN @ ELSE @ + 1]
  /\ inn' = [inn EXCEPT ![r] = IF o.k = "coll" /\ inn[r] = 0 THEN 1 ELSE 0]
  /\ ent' = IF o.k = "icoll" \/ (o.k = "coll" /\ inn[r] = 0) THEN [ent EXCEPT ![r][o.comm] = @ + 1] ELSE ent
  /\ snd' = IF o.k = "send" THEN [snd EXCEPT ![o.ch] = @ + 1] ELSE snd
  /\ rcv' = IF o.k = "recv" THEN [rcv EXCEPT ![o.ch] = @ + 1] ELSE rcv
  /\ UNCHANGED <<sc, mode>>
Meet == \E r, q \in Ranks : r < q /\ AtFs(r) /\ AtFs(q) /\ Conflict(sc, r, pc[r], q, pc[q])
AllEnd == \A r \in Ranks : AtEnd(r)
Stuck == ~AllEnd /\ \A r \in Ranks : ~Can(r)
Init == /\ sc \in DOMAIN Scens /\ mode \in {"sync", "free"} /\ stop = FALSE
        /\ pc = [r \in DOMAIN Scens[sc].prog |-> 1] /\ inn = [r \in DOMAIN Scens[sc].prog |-> 0]
        /\ ent = [r \in DOMAIN Scens[sc].prog |-> [c \in DOMAIN Scens[sc].comms |-> 0]]
        /\ snd = [c \in 1..Scens[sc].chans |-> 0] /\ rcv = [c \in 1..Scens[sc].chans |-> 0]
\* a meeting or a blockade ends the run (and is reported)
Next == /\ ~stop /\ ~AllEnd
        /\ IF Meet \/ Stuck THEN stop' = TRUE /\ UNCHANGED <<sc, mode, pc, inn, ent, snd, rcv>>
           ELSE /\ stop' = FALSE
                /\ LET Eag == {r \in Ranks : Can(r) /\ ~AtFs(r)} IN
                   IF Eager /\ Eag # {} THEN Step(CHOOSE r \in Eag : \A q \in Eag : r <= q)
                   ELSE \E r \in Ranks : Can(r) /\ Step(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverStuck == ~Stuck
NeverMeet == ~Meet
Finishes == <>(AllEnd \/ stop)
\* ---- matching, independent of the schedule ----
Colls(s, r, c) == SelectSeq(Scens[s].prog[r], LAMBDA o : o.k \in {"coll", "icoll"} /\ o.comm = c)
Posts(s, r, k, c) == SelectSeq(Scens[s].prog[r], LAMBDA o : o.k = k /\ o.ch = c)
SameColl(s, c) == LET M == Scens[s].comms[c]  S == TLCEval([k \in DOMAIN M |-> Colls(s, M[k], c)]) IN
  \A k \in DOMAIN M : /\ Len(S[k]) = Len(S[1])
     /\ \A i \in DOMAIN S[k] : LET a == S[1][i]  b == S[k][i] IN
          a.name = b.name /\ a.k = b.k /\ a.root = b.root /\ a.op = b.op
SameSize(s, c) == LET M == Scens[s].comms[c]  S == TLCEval([k \in DOMAIN M |-> Colls(s, M[k], c)]) IN
  \A k \in DOMAIN M : \A i \in DOMAIN S[k] : LET a == S[1][i]  b == S[k][i] IN
     \/ a.cnt < 0 \/ b.cnt < 0
     \/ a.name \in {"Gatherv", "Igatherv", "Allgatherv", "Iallgatherv", "Scatterv", "Iscatterv", "Alltoallv"}
        /\ \A m \in DOMAIN M : LET t == S[m][i] IN (Len(t.cnts) >= k /\ b.cnt >= 0) => t.cnts[k] = b.cnt
     \/ a.cnt = b.cnt
Paired(s, c) == LET P == DOMAIN Scens[s].prog
                    sn == TLCEval([r \in P |-> Posts(s, r, "send", c)])  rv == TLCEval([r \in P |-> Posts(s, r, "recv", c)])
                    S == CHOOSE x \in {sn[r] : r \in P} : \A r \in P : Len(sn[r]) <= Len(x)
                    V == CHOOSE x \in {rv[r] : r \in P} : \A r \in P : Len(rv[r]) <= Len(x)
                IN Len(S) = Len(V) /\ \A i \in DOMAIN S : S[i].cnt < 0 \/ V[i].cnt < 0 \/ S[i].cnt <= V[i].cnt
Match(s) == When(\A c \in DOMAIN Scens[s].comms : SameColl(s, c), "all ranks issue the same collective operations with the same roots and operators")
  \cup When((\A c \in DOMAIN Scens[s].comms : SameColl(s, c)) => \A c \in DOMAIN Scens[s].comms : SameSize(s, c), "sizes of collective operations agree")
  \cup When(\A c \in 1..Scens[s].chans : Paired(s, c), "every send has exactly one receive that is large enough")
====
