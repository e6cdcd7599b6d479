---- MODULE T_Object ----
(* Replay of histories of Object on the real classes: one record per rank and step (a fit, projection or reconstruction of an
   object).  p, d: parameters of the object and record of its latest fit (d.nt = 0: not fitted); o: what the attributes say on this rank;
   y: the parameters its results directory holds; the remaining fields compare, bit for bit, what getters return with what the
   files of that fit hold (rank 0), or tell which of the files named exist.  like: largest differences (units of 1e-9 of
   the largest value; <<>> unless this was a repeated fit) of eigenvalues, frequencies, weights (this rank) and of every array stored
   (rank 0) to those of a new object with the same parameters fitted once to the same record; likefile: same files, same parameters. *)
EXTENDS ObjLib, VLib, TraceLib
VARIABLES l, bad
Common(r) == LET s == Says(r.p, r.d) IN
  When(r.o.nt = s.nt, "nt is the length of the whole record") \cup
  When(r.o.nx = s.nx /\ r.o.nv = s.nv, "nx and nv are those of the record") \cup
  When(r.o.xdim = s.xdim /\ r.o.xshape = s.xshape, "xdim and xshape are those of the grid") \cup
  When(r.o.dim = s.dim /\ r.o.shape = s.shape, "dim and shape are those of the whole record") \cup
  When(r.o.kept = s.kept, "n_modes_save is the number of modes stored") \cup
  When(r.dt, "dt is the time step given") \cup
  When(r.weights = 1, "weights of the ranks make up the weights stored") \cup
  When(r.eigs, "eigs are the eigenvalues stored, on every rank") \cup
  When(r.file, "the latest coefficients and reconstruction are the files named") \cup
  When(r.given, "the parameters given are stored with the results of the object") \cup
  When(\A i \in DOMAIN r.like : r.like[i] <= r.tol, "fitted again, the object gives the results of a new one") \cup
  When(r.likefile, "fitted again, the object stores what a new one stores") \cup
  When(r.data, "get_data gives the snapshots asked for")
Spec1(r) == IF r.p.cls = "pod" THEN {} ELSE LET s == Spectral(r.p, r.d) IN
  When(r.o.n = s.n, "n_dft is the block length given") \cup
  When(r.o.nb = s.nb, "n_blocks is the number of blocks of the record") \cup
  When(r.o.nf = s.nf /\ r.nfreq = s.nf, "n_freq is the length of the frequency axis") \cup
  When(r.o.nm = r.neigs, "n_modes is the number of eigenvalues per frequency") \cup
  When(r.freq, "freq is the frequency axis stored, on every rank") \cup
  When(r.modes, "get_modes_at_freq gives the stored modes of the latest fit") \cup
  When(r.dirs, "modes_dir and savedir_sim are where the results are") \cup
  When(r.y.n = s.n /\ r.y.nb = s.nb /\ r.y.nf = s.nf /\ r.y.kept = Kept(r.p, r.d) /\ r.y.ov = r.p.ov, "the parameters stored are those of the fit") \cup
  When(r.near, "find_nearest_freq and find_nearest_coords answer for the record of the fit")
Fails(r) == When(r.err = "", "the operation completes") \cup (IF r.err # "" THEN {} ELSE Common(r) \cup Spec1(r))
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l] IN bad' = bad \cup {<<r.id, c>> : c \in Fails(r)}
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad>>
Done == Consumed
====
