---- MODULE Seq ----
(* Training windows and step-by-step inference.  A record of nt snapshots; a pair is (inputs t..t+ni-1, targets starting fh after the
   last input, no of them).  Inference walks t = ni, ni+no, ... and writes the prediction made from t-ni..t-1 to t..t+no-1, cut at
   the end of the record.  Checked for all small sizes: windows inside the record, every start once and in order, every snapshot
   after the first ni written exactly once by the prediction whose inputs end right before its block. *)
EXTENDS ProjLib
CONSTANTS MaxT
VARIABLES nt, ni, no, fh, t, pairs, out, pos
vars == <<nt, ni, no, fh, t, pairs, out, pos>>
Windows(n, i, o, f) == n - i - o - f + 1
Init == /\ nt \in 1..MaxT /\ ni \in 1..nt /\ no \in 1..4 /\ fh \in 1..3
        /\ t = 0 /\ pairs = <<>> /\ out = [k \in 1..nt |-> IF k <= ni THEN <<"data", k>> ELSE <<"none", 0>>] /\ pos = ni
Extract == /\ t < Windows(nt, ni, no, fh) /\ t' = t + 1
           /\ pairs' = Append(pairs, <<[k \in 1..ni |-> t + k - 1], [k \in 1..no |-> t + ni - 1 + fh + k - 1]>>)
           /\ UNCHANGED <<nt, ni, no, fh, out, pos>>
Infer == /\ t >= Windows(nt, ni, no, fh) /\ pos < nt /\ pos' = pos + no
         /\ out' = [k \in 1..nt |-> IF k - 1 >= pos /\ k - 1 < pos + no THEN <<"pred", pos>> ELSE out[k]]
         /\ UNCHANGED <<nt, ni, no, fh, t, pairs>>
Next == Extract \/ Infer
Spec == Init /\ [][Next]_vars
Inside == \A k \in 1..Len(pairs) : \A x \in SetOfSeq(pairs[k][1]) \cup SetOfSeq(pairs[k][2]) : x >= 0 /\ x < nt
Starts == \A k \in 1..Len(pairs) : pairs[k][1][1] = k - 1 /\ pairs[k][2][1] = Last(pairs[k][1]) + fh
Written == pos >= nt => \A k \in 1..nt : IF k <= ni THEN out[k] = <<"data", k>>
             ELSE out[k] = <<"pred", ni + no * ((k - 1 - ni) \div no)>>
====
