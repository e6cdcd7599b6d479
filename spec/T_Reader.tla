---- MODULE T_Reader ----
(* One record = one reader on all ranks and its requests.  g: shape of one snapshot as delivered (space..., variable), a: its
   distributed axis (1-based); values are C-order positions over (time, g); ctime[t]: snapshot t has an imaginary part
   (position + 1).  parts[q][p] = <<ts, te, shape, re, im>> *)
EXTENDS VLib, TraceLib
VARIABLES l, bad
RECURSIVE Strides(_)
Strides(s) == IF Len(s) = 0 THEN <<>> ELSE <<Prod(Tail(s))>> \o Strides(Tail(s))
Fails(r) ==
  LET P == r.P  g == r.g  a == r.a  anyc == \E t \in 1..r.nt : r.ctime[t]
      gs == TLCEval(Strides(<<r.nt>> \o g))
      cnt == [p \in 1..P |-> CountOf(g[a], P, p - 1)]
      lo == [p \in 1..P |-> StartOf(g[a], P, p - 1)]
      Part(x, p) ==
        LET sub == TLCEval(<<x[2] - x[1]>> \o [j \in 1..Len(g) |-> IF j = a THEN cnt[p] ELSE g[j]])
            ss == TLCEval(Strides(sub))
            Ix(k, j) == (k \div ss[j]) % sub[j]
            Pos(k) == Sum(LAMBDA j : (Ix(k, j) + (IF j = 1 THEN x[1] ELSE IF j = a + 1 THEN lo[p] ELSE 0)) * gs[j], 1, Len(gs))
        IN IF x[3] # sub THEN {"shape of what a rank receives"} ELSE
           When(\A k \in 1..Len(x[4]) : x[4][k] = Pos(k - 1), "values are those of the requested times, points and variables, in order")
           \cup When((~anyc /\ (x[5] = <<>> \/ \A k \in 1..Len(x[5]) : x[5][k] = 0)) \/
                     (anyc /\ Len(x[5]) = Len(x[4]) /\ \A k \in 1..Len(x[5]) : x[5][k] = IF r.ctime[x[1] + Ix(k - 1, 1) + 1] THEN x[4][k] + 1 ELSE 0),
                     "imaginary parts are those of the record")
      Dict(d) == d = <<>> \/ (d[1][1] = 0 /\ d[Len(d)][2] = r.nt /\ (\A k \in 1..Len(d) : d[k][3] = d[k][2] - d[k][1]) /\ \A k \in 1..(Len(d) - 1) : d[k][2] = d[k+1][1])
  IN When(r.rnt = r.nt, "record length") \cup When(r.rx = r.xshape, "spatial shape") \cup When(r.rnx = Prod(r.xshape), "number of points")
     \cup When(r.isreal = ~anyc, "real/complex nature of the whole record")
     \cup When(\A d \in DOMAIN r.dict : Dict(r.dict[d]), "in-memory pieces cover the record in time order")
     \cup UNION {UNION {Part(r.parts[q][p], p) : p \in 1..P} : q \in DOMAIN r.parts}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
