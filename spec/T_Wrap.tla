---- MODULE T_Wrap ----
(* Replay of a history of Wrap on the real classes.  One record per call, in order: the call, the directory it returned (r, b; 0 if
   it is none of them), whether it was called without a directory (own) and, for every projection of the history, whether what the call left or returned equals what the functions
   of the package give for that projection (same). *)
EXTENDS VLib, TraceLib
VARIABLES l, bad, cur, k, files, last
NoneF == [x \in {} |-> 0]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Dir(r) == <<r.r, r.b>>
Fails(r, fl, ls) ==
  When(r.own => Dir(r) = (IF r.a = "coef" THEN <<r.o, r.b>> ELSE ls[r.o]), "the history is one of the specification") \cup
  When(~r.err, "the operation completes") \cup
  (IF r.err THEN {} ELSE
   When(r.dr = r.r /\ r.db = r.b, IF r.a = "coef" THEN "coefficients go to the results directory given" ELSE "a reconstruction goes to the coefficients directory given")
   \cup When(fl[Dir(r)] \in SetOf(r.same), IF r.a = "coef" THEN "coefficients, modes and mean are those of the functions" ELSE "the reconstruction is that of the directory given")
   \cup When(r.times, "the reconstruction has the times asked for"))
Init == l = 1 /\ bad = {} /\ cur = -1 /\ k = 0 /\ files = NoneF /\ last = NoneF
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               new == r.hist # cur
               n == IF new THEN 1 ELSE k + 1
               f0 == IF new THEN NoneF ELSE files
               fl == IF r.a = "coef" THEN With(f0, Dir(r), n) ELSE f0
               ls == IF new THEN NoneF ELSE last
           IN cur' = r.hist /\ k' = n /\ files' = fl /\ bad' = bad \cup {<<r.id, c>> : c \in Fails(r, fl, ls)} /\ last' = With(ls, r.o, Dir(r))
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad, cur, k, files, last>>
Done == Consumed
====
