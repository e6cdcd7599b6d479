---- MODULE Wrap ----
(* Projection and reconstruction called as methods of analysis objects.  A projection into the results directory res with the
   band b leaves its coefficients, modes and mean in the directory <<res, b>>, whichever object it is called on; a
   reconstruction reads the directory it is handed, not the one of the object's fit or of its latest projection.  Without a
   directory (None) a projection uses the results of the object and a reconstruction the directory of its latest call.  Checked for
   all histories: what a reconstruction returns is the latest projection stored in the directory handed to it; an object needs a
   projection before it reconstructs. *)
EXTENDS Naturals, Sequences
CONSTANTS Objs, Bands, MaxLen
Dirs == Objs \X Bands                      \* results directory of an object, band
NoFile == 0
VARIABLES hist, files, last, out
vars == <<hist, files, last, out>>
Init == hist = <<>> /\ files = [d \in Dirs |-> NoFile] /\ last = [o \in Objs |-> <<>>] /\ out = <<>>
\* projection by o with results directory of r
Coef(o, r, b) == /\ Len(hist) < MaxLen
                 /\ hist' = Append(hist, <<"coef", o, r, b>>)
                 /\ files' = [files EXCEPT ![<<r, b>>] = Len(hist) + 1]
                 /\ last' = [last EXCEPT ![o] = <<r, b>>]
                 /\ out' = <<>>
Rec(o, r, b) == /\ Len(hist) < MaxLen /\ last[o] # <<>> /\ files[<<r, b>>] # NoFile
                /\ hist' = Append(hist, <<"rec", o, r, b>>)
                /\ out' = <<files[<<r, b>>]>>
                /\ last' = [last EXCEPT ![o] = <<r, b>>]
                /\ UNCHANGED files
CoefOwn(o, b) == Coef(o, o, b)
RecOwn(o) == last[o] # <<>> /\ Rec(o, last[o][1], last[o][2])
Next == \/ \E o \in Objs, b \in Bands : CoefOwn(o, b)
        \/ \E o \in Objs : RecOwn(o)
        \/ \E o \in Objs, r \in Objs, b \in Bands : Coef(o, r, b) \/ Rec(o, r, b)
Spec == Init /\ [][Next]_vars
\* the latest projection of the history into a directory
Latest(h, r, b) == LET S == {k \in 1..Len(h) : h[k][1] = "coef" /\ h[k][3] = r /\ h[k][4] = b} IN IF S = {} THEN NoFile ELSE CHOOSE k \in S : \A j \in S : j <= k
\* where a call without a directory ends up: the object's own latest
OwnLatest == \A o \in Objs : last[o] # <<>> => \E k \in 1..Len(hist) : hist[k][2] = o /\ <<hist[k][3], hist[k][4]>> = last[o] /\ \A j \in k + 1..Len(hist) : hist[j][2] # o
RecReads == out # <<>> => LET e == hist[Len(hist)] IN out[1] = Latest(hist, e[3], e[4])
FilesLatest == \A r \in Objs, b \in Bands : files[<<r, b>>] = Latest(hist, r, b)
\* a projection is never lost to one of another directory
Kept == [][\A d \in Dirs : files[d] # NoFile => files'[d] # NoFile]_vars
====
