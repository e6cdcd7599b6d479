---- MODULE T_Store ----
(* Replay of a history of Store on the real library.  One record per event, in order: the event, and for everything that can be
   seen afterwards the set of events (fits) of the history whose reference result it equals: per location the aspects
   m (modes), e (eigenvalues, frequencies, bounds), w (weights), l (time mean), p (parameters); per object its attributes a;
   what a read returned and a projection produced.  Which = "files": claims about stored results; "inputs": claims about
   objects, inputs and repeatability. *)
EXTENDS StoreLib, TraceLib
CONSTANT Which
VARIABLES l, bad, cur, fits, files, obj
NoneF == [x \in {} |-> 0]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* state after the event of record r
NextFits(r, ft) == IF r.a = "fit" THEN Append(ft, [o |-> r.o, loc |-> r.loc]) ELSE Append(ft, [o |-> 0, loc |-> <<>>])
NextFiles(r, fl, k) == IF r.a = "fit" /\ ~r.err THEN With(fl, r.loc, k) ELSE fl
NextObj(r, ob, k) == IF r.a = "fit" /\ ~r.err THEN With(ob, r.o, k) ELSE ob
LocOf(s) == <<s[1], s[2], s[3]>>
Aspects == <<"m", "e", "w", "l", "p">>
Names == [m |-> "stored modes", e |-> "stored eigenvalues and frequencies", w |-> "stored weights", l |-> "stored time mean", p |-> "stored parameters"]
Fails(r, fl, ob, k, objloc) ==
  When(~r.err, "the operation completes") \cup
  (IF r.err THEN {} ELSE
   (IF Which = "files" THEN
     When({LocOf(x.loc) : x \in SetOf(r.locs)} = DOMAIN fl, "result directories are those of the fits")
     \cup UNION {IF LocOf(x.loc) \notin DOMAIN fl THEN {} ELSE
           When(x.ok, "a result directory can be read")
           \cup UNION {When(~x.ok \/ fl[LocOf(x.loc)] \in SetOf(x[a]), Names[a] \o " are those of the latest fit") : a \in SetOf(Aspects)} : x \in SetOf(r.locs)}
     \cup When(~r.hasret \/ objloc[r.o] \notin DOMAIN fl \/ fl[objloc[r.o]] \in SetOf(r.ret), "modes that are read are those of the latest fit")
     \cup UNION {When(x.o \in DOMAIN ob /\ ob[x.o] \in SetOf(x.a), "attributes are those of the latest fit of the object") : x \in SetOf(r.objs)}
    ELSE
     When(r.inputs, "data and weights passed in are unchanged") \cup When(r.params, "numerical parameters passed in are unchanged")
     \cup When(r.kept, "coefficients passed in are unchanged")
     \cup UNION {When(x.o \in DOMAIN ob /\ ob[x.o] \in SetOf(x.a), "an analysis gives the result of a fresh analysis") : x \in SetOf(r.objs)}
     \cup When(~r.hasproj \/ objloc[r.o] \notin DOMAIN fl \/ fl[objloc[r.o]] \in SetOf(r.proj), "projection and reconstruction are those of a fresh analysis")))
ObjLocs(ft, ob) == [o \in DOMAIN ob |-> ft[ob[o]].loc]
Init == l = 1 /\ bad = {} /\ cur = -1 /\ fits = <<>> /\ files = NoneF /\ obj = NoneF
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               new == r.hist # cur
               ft0 == IF new THEN <<>> ELSE fits
               k == Len(ft0) + 1
               ft == NextFits(r, ft0)
               fl == NextFiles(r, IF new THEN NoneF ELSE files, k)
               ob == NextObj(r, IF new THEN NoneF ELSE obj, k)
           IN /\ cur' = r.hist /\ fits' = ft /\ files' = fl /\ obj' = ob
              /\ bad' = bad \cup {<<r.id, c>> : c \in Fails(r, fl, ob, k, ObjLocs(ft, ob))}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad, cur, fits, files, obj>>
Done == Consumed
====
