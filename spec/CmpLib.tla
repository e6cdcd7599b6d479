---- MODULE CmpLib ----
(* One record = a serial fit and a distributed fit of the same input.  Differences d.* are relative to the largest magnitude,
   in units of 1e-9 (1e-5 in single precision).  modes[f][k] = <<level, gap, diff>>: eigenvalue and distance to the nearest
   other eigenvalue of that frequency, in millionths of the largest, and the difference of the two modes after removing one
   unit phase, in the same units as d. *)
EXTENDS VLib
Amp(x) == 1 + 1000000 \div Max(x, 1)      \* condition of a quantity that is x millionths of the scale
CmpFails(r) ==
  When(r.nb[1] = r.nb[2], "number of blocks") \cup When(r.nf[1] = r.nf[2], "number of frequencies") \cup When(r.nms[1] = r.nms[2], "number of stored modes")
  \cup When(r.shapes, "shapes of eigenvalues, weights, mean and modes")
  \cup When(r.ranks, "every rank reports the same eigenvalues and frequencies")
  \cup When(r.d.freq <= 0, "frequency axis") \cup When(r.d.w <= r.tol, "weights") \cup When(r.d.ltm <= r.tol * r.cm, "time mean")
  \cup When(r.d.eigs <= 10 * r.tol, "eigenvalues") \cup When(r.d.conf <= 10 * r.tol, "confidence bounds")
  \cup When(Len(r.yaml) = 0, "stored parameters")
  \cup When(\A f \in DOMAIN r.modes : \A k \in DOMAIN r.modes[f] : LET m == r.modes[f][k] IN
        (m[1] >= r.thr /\ m[2] >= r.thr) => m[3] <= 10 * r.tol * (Amp(m[1]) + Amp(m[2])), "stored modes up to a unit phase")
====
