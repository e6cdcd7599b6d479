---- MODULE T_Args ----
(* One record per call, in order: the operation with its arguments (key), the contents of every object the caller owns after the
   call (a class number per object; 0 = what the caller put in) and the class of the result among those seen for the key. *)
EXTENDS TraceLib
LOCAL INSTANCE VLib
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
VARIABLES l, bad, cur, memo, last
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Fails(r, m, prev) ==
  UNION {When(r.objs[i][2] = Get(prev, r.objs[i][1], 0), "changes " \o r.objs[i][1]) : i \in 1..Len(r.objs)}
  \cup When(r.res = Get(m, r.key, r.res), "the same call gives the same result")
Init == l = 1 /\ bad = {} /\ cur = -1 /\ memo = [x \in {} |-> 0] /\ last = [x \in {} |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               m == IF r.hist = cur THEN memo ELSE [x \in {} |-> 0]
               p == IF r.hist = cur THEN last ELSE [x \in {} |-> 0]
           IN /\ bad' = bad \cup {<<r.id, c>> : c \in Fails(r, m, p)}
              /\ memo' = [x \in DOMAIN m \cup {r.key} |-> IF x \in DOMAIN m THEN m[x] ELSE r.res]
              /\ last' = [x \in {r.objs[i][1] : i \in 1..Len(r.objs)} |-> r.objs[CHOOSE i \in 1..Len(r.objs) : r.objs[i][1] = x][2]]
              /\ cur' = r.hist
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad, cur, memo, last>>
Done == Consumed
====
