---- MODULE MpiProgs ----
(* The communication and file protocols of the library as programs for P ranks, and the same protocols with one flaw each.
   rank 1 is the root.  An operation is a record in the vocabulary of MpiSem; Number fills in the sequence numbers. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE FiniteSets
O == [k |-> "coll", name |-> "", comm |-> 1, root |-> -1, op |-> "", cnt |-> -1, cnts |-> <<>>, seq |-> 0, ch |-> 0, of |-> <<>>, act |-> "", path |-> <<>>, cls |-> "all"]
All(n) == [O EXCEPT !.name = n]
Bar == All("Barrier")
Bc(root) == [O EXCEPT !.name = "Bcast", !.cls = "down", !.root = root]
Rd(root) == [O EXCEPT !.name = "Reduce", !.cls = "up", !.root = root, !.op = "SUM"]
Ar(op, n) == [O EXCEPT !.name = "Allreduce", !.op = op, !.cnt = n]
Sc == [O EXCEPT !.name = "Scan", !.cls = "scan"]
Fs(a, p) == [O EXCEPT !.k = "fs", !.act = a, !.path = p, !.comm = 1, !.cls = ""]
Snd(c, n) == [O EXCEPT !.k = "send", !.name = "Isend", !.ch = c, !.cnt = n, !.cls = ""]
Rcv(c, n) == [O EXCEPT !.k = "recv", !.name = "Irecv", !.ch = c, !.cnt = n, !.cls = ""]
Wt(of) == [O EXCEPT !.k = "wait", !.name = "Waitall", !.of = of, !.cls = ""]
SelfWait == Wt(<<0>>)                      \* waits for the operation just before it (a blocking send or receive)
Ch(P, a, b) == (a - 1) * P + b
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
Only(c, s) == IF c THEN s ELSE <<>>
\* ---- protocols; r is the rank, f the flaw ----
\* npy_save: collective write of one file
Save(p, r, f) == <<Ar("SUM", 8), Sc, All("File.Open"), Fs("C", p), All("File.Set_size"), Bc(IF f = "root" THEN r - 1 ELSE 0), All("File.Set_view")>>
                  \o Only(~(f = "skip_empty" /\ r > 1), <<All("File.Write_all")>>) \o <<All("File.Sync"), All("File.Close")>>
\* a directory made by the root before everybody uses it
Dirs(p, r, f) == IF f = "dirs_by_all" THEN <<Fs("T", p), Fs("M", p)>> ELSE Only(r = 1, <<Fs("T", p), Fs("M", p)>>)
\* exchange of parts between all pairs (reader, redistribution, compaction)
Exchange(P, r, f) ==
  IF f = "blocking" THEN Cat([q \in 1..P |-> Only(q # r, <<Snd(Ch(P, r, q), 8), SelfWait>>)]) \o Cat([q \in 1..P |-> Only(q # r, <<Rcv(Ch(P, q, r), 8), SelfWait>>)])
  ELSE [q \in 1..P |-> Rcv(Ch(P, q, r), IF f = "small_recv" /\ q = 1 /\ r = P THEN 4 ELSE 8)]
       \o (IF f = "lost_send" /\ r = P THEN [q \in 1..(P - 1) |-> Snd(Ch(P, r, q), 8)] ELSE [q \in 1..P |-> Snd(Ch(P, r, q), 8)]) \o <<Wt([q \in 1..P |-> -q])>>
Root(r, s) == Only(r = 1, s)
Blk(i) == <<"b", ToString(i)>>
\* fit: directories, distribution, FFT blocks on disk, means, modes, weights, parameters
Fit(P, r, f) ==
  Exchange(P, r, f) \o <<Rd(0), Bar>> \o Dirs(<<"m">>, r, f) \o Dirs(<<"b">>, r, f)
  \o Only(f # "no_barrier_dirs", <<Ar("SUM", 8)>>)
  \o Only(f = "rank_dependent" /\ r = 1, <<Bar>>)
  \o Cat([i \in 1..2 |-> Save(Blk(i), r, f) \o Only(f # "no_barrier_blocks", <<Bar>>) \o <<Fs("R", Blk(i))>>])
  \o <<Ar(IF f = "operator" /\ r = P THEN "MAX" ELSE "SUM", IF f = "length" /\ r = P THEN 16 ELSE 8)>>
  \o Save(<<"m", "f0">>, r, f) \o Save(<<"w">>, r, f)
  \o (IF f = "yaml_by_all" THEN <<Fs("W", <<"p">>)>> ELSE Root(r, <<Fs("W", <<"p">>), Fs("W", <<"e">>)>>)) \o <<Bar>>
\* the root decides whether the blocks on disk are used again; the others follow
Reuse(P, r, f, there) ==
  LET T == [i \in 1..2 |-> Fs("T", Blk(i))]
      dec == IF f = "decide_alone" THEN T ELSE IF f = "all_test" THEN T \o <<Bc(0)>> ELSE IF f = "no_bcast" THEN <<Bar>> \o Root(r, T) ELSE Root(r, T) \o <<Bc(0)>>
      keep == IF f = "decide_alone" /\ r = P THEN ~there ELSE there
  IN dec \o (IF keep THEN [i \in 1..2 |-> Fs("R", Blk(i))]
             ELSE Root(r, <<Fs("D", Blk(1)), Fs("D", Blk(2))>>) \o Only(f # "remove_unfenced", <<Bar>>)
                  \o Cat([i \in 1..2 |-> Save(Blk(i), r, "none") \o <<Bar, Fs("R", Blk(i))>>])) \o <<Bar>>
\* projection and reconstruction
Coeffs(P, r, f) ==
  <<Fs("R", <<"e">>), Fs("R", <<"w">>), Fs("R", <<"m", "f0">>), Bar>> \o Dirs(<<"c">>, r, f) \o Only(f # "no_barrier_dirs", <<Bar>>)
  \o Root(r, <<Fs("W", <<"c", "coeffs">>)>>) \o Save(<<"c", "phi">>, r, f)
  \o (IF f = "yaml_by_all" THEN <<Fs("W", <<"c", "p">>)>> ELSE Root(r, <<Fs("W", <<"c", "p">>)>>)) \o Only(f # "no_barrier_end", <<Bar>>)
  \o <<Fs("R", <<"c", "phi">>), Fs("R", <<"c", "p">>), Fs("R", <<"c", "coeffs">>), Bar>>
\* ---- numbering ----
Count(s, i, C(_)) == Cardinality({j \in 1..i : C(s[j])})
Number(s) == TLCEval([i \in DOMAIN s |-> LET o == s[i] IN
  CASE o.k = "coll" -> LET C(x) == x.k = "coll" IN [o EXCEPT !.seq = Count(s, i, C)]
    [] o.k \in {"send", "recv"} -> LET C(x) == x.k = o.k /\ x.ch = o.ch IN [o EXCEPT !.seq = Count(s, i, C)]
    [] o.k = "wait" -> IF o.of = <<0>> THEN [o EXCEPT !.of = <<i - 1>>]
                       ELSE LET posts == {j \in 1..(i - 1) : s[j].k \in {"send", "recv"}} IN [o EXCEPT !.of = LET RECURSIVE Q(_) Q(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Q(S \ {m}) IN Q(posts)]
    [] OTHER -> o])
Mk(id, P, F(_), bad) == [id |-> id, comms |-> <<[k \in 1..P |-> k]>>, chans |-> P * P, prog |-> [r \in 1..P |-> Number(F(r))], bad |-> bad]
FitFlaws == <<"none", "blocking", "small_recv", "lost_send", "no_barrier_dirs", "dirs_by_all", "root", "skip_empty", "rank_dependent", "no_barrier_blocks", "operator", "length", "yaml_by_all">>
ReuseFlaws == <<"none", "decide_alone", "no_bcast", "remove_unfenced", "all_test">>
CoeffFlaws == <<"none", "no_barrier_dirs", "dirs_by_all", "root", "skip_empty", "yaml_by_all", "no_barrier_end">>
\* a flaw shows only with several ranks; skip_empty needs a rank that skips
\* the reduction that starts the next protocol fences a directory anyway, and closing a file is collective
Harmless == {"none", "no_barrier_dirs", "no_barrier_blocks"}
FitProgs(P) == [i \in 1..(IF P = 1 THEN 1 ELSE Len(FitFlaws)) |-> LET F(r) == Fit(P, r, FitFlaws[i]) IN Mk(<<"fit", FitFlaws[i], P>>, P, F, P > 1 /\ FitFlaws[i] \notin Harmless)]
\* no_bcast: harmless when the decision happens to be the same everywhere
ReuseProgs(P, there) == [i \in 1..(IF P = 1 THEN 1 ELSE Len(ReuseFlaws)) |-> LET F(r) == Reuse(P, r, ReuseFlaws[i], there) IN
   Mk(<<"reuse", ReuseFlaws[i], P, there>>, P, F, P > 1 /\ (ReuseFlaws[i] = "decide_alone" \/ (ReuseFlaws[i] = "all_test" /\ ~there)))]
CoeffProgs(P) == [i \in 1..(IF P = 1 THEN 1 ELSE Len(CoeffFlaws)) |-> LET F(r) == Coeffs(P, r, CoeffFlaws[i]) IN Mk(<<"coeffs", CoeffFlaws[i], P>>, P, F, P > 1 /\ CoeffFlaws[i] \notin Harmless)]
ProgramsFor(N) == TLCEval(Cat([P \in 1..N |-> FitProgs(P) \o ReuseProgs(P, TRUE) \o ReuseProgs(P, FALSE) \o CoeffProgs(P)]))
====
