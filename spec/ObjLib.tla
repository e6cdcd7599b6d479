---- MODULE ObjLib ----
(* What an analysis object says about itself, as a function of its parameters p and the record d of its latest fit.
   p: [cls, n, ov, req, full] with req = 0 when all modes are kept; d: [nt, xs, nv, cplx]. *)
EXTENDS Integers, Sequences
LOCAL Lo(a, b) == IF a < b THEN a ELSE b
RECURSIVE Points(_)
Points(s) == IF s = <<>> THEN 1 ELSE Head(s) * Points(Tail(s))
Blocks(p, d) == (d.nt - p.ov) \div (p.n - p.ov)
Freqs(p, d) == IF p.full \/ d.cplx THEN p.n ELSE p.n \div 2 + 1
Most(p, d) == IF p.cls = "pod" THEN d.nt ELSE Blocks(p, d)
Kept(p, d) == IF p.req = 0 THEN Most(p, d) ELSE Lo(p.req, Most(p, d))
Says(p, d) == [nt |-> d.nt, nx |-> Points(d.xs), nv |-> d.nv, xdim |-> Len(d.xs), xshape |-> d.xs, dim |-> Len(d.xs) + 2,
               shape |-> <<d.nt>> \o d.xs \o <<d.nv>>, kept |-> Kept(p, d)]
Spectral(p, d) == [n |-> p.n, nb |-> Blocks(p, d), nf |-> Freqs(p, d)]
====
