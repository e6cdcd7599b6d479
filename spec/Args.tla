---- MODULE Args ----
(* Calls that share objects.  A caller owns objects (records, weights, lists of indices, coefficients); every call of an operation
   on some of them sees their present contents and returns a result.  Pure operations leave the contents alone, so that every
   call sees what the caller put in and the same call always returns the same.  Flaw: an operation that writes into an object
   (or keeps something between calls) - the invariants must find it. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NO, NF, LEN, Flaw
VARIABLES obj, memo, kept, hist
vars == <<obj, memo, kept, hist>>
Objs == 1..NO
Ops == 1..NF
Uses(f) == {o \in Objs : (f + o) % 2 = 0 \/ o = 1}
Value(f, o) == [x \in Uses(f) |-> o[x]]
Init == obj = [o \in Objs |-> 0] /\ memo = {} /\ kept = 0 /\ hist = <<>>
Call(f) == /\ Len(hist) < LEN
           /\ LET seen == <<f, Value(f, obj), IF Flaw = "state" /\ f = NF THEN kept ELSE 0>> IN
              memo' = memo \cup {seen}
           /\ obj' = IF Flaw = "write" /\ f = NF THEN [obj EXCEPT ![1] = @ + 1] ELSE obj
           /\ kept' = IF Flaw = "state" /\ f = 1 THEN 1 ELSE kept
           /\ hist' = Append(hist, f)
Next == \E f \in Ops : Call(f)
Spec == Init /\ [][Next]_vars
Untouched == \A o \in Objs : obj[o] = 0
Repeatable == \A a, b \in memo : a[1] = b[1] => a = b
====
