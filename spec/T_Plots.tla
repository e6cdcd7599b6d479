---- MODULE T_Plots ----
(* Observed pictures of one call: figs, each with names found in its file name (fn) and titles (tn) and its axes: fields z (x, y, v),
   lines, marks (w vertical, h horizontal), against the request req and the underlying numbers A. *)
EXTENDS PlotLib, TraceLib
VARIABLES l, bad, turn

Win(x, a, b) == SubSeq(x, a + 1, b)
\* field of figure axis z equals expected F(R, C) on coordinates x, y
FieldIs(z, x, y, F(_, _)) == /\ z.x = x /\ z.y = y /\ Len(z.v) = Len(y)
                             /\ \A r \in DOMAIN z.v : Len(z.v[r]) = Len(x) /\ \A c \in DOMAIN z.v[r] : z.v[r][c] = F(r, c)
One(z) == Len(z) = 1
\* ---- 2D modes: A[f][i][j][v][m] = <<re, im>>
Val2(r, f, v, m, R, C, part) == LET q == r.req p == At(q.shape[2], q.shape[3], Len(q.x1), Len(q.x2), q.shift180, q.fftshift, R, C) IN r.A[f][p[1] + 1][p[2] + 1][v + 1][m + 1][part]
Sq(z) == z[1] * z[1] + z[2] * z[2]
Panel2(r, ax, f, v, m, part) ==
  LET q == r.req
      x == [k \in 1..q.win1[2] - q.win1[1] |-> q.x1[q.win1[1] + k] - (IF q.shift180 THEN 180 ELSE 0)]
      y == Win(q.x2, q.win2[1], q.win2[2])
      F(a, b) == Val2(r, f, v, m, q.win2[1] + a - 1, q.win1[1] + b - 1, part)
      E(a, b) == Sq(<<Val2(r, f, v, m, q.win2[1] + a - 1, q.win1[1] + b - 1, 1), Val2(r, f, v, m, q.win2[1] + a - 1, q.win1[1] + b - 1, 2)>>)
      Best == {<<a, b>> \in (1..Len(y)) \X (1..Len(x)) : \A c \in 1..Len(y) : \A d \in 1..Len(x) : E(a, b) >= E(c, d)}
  IN /\ One(ax.z) /\ FieldIs(ax.z[1], x, y, F) /\ ax.lines = <<>>
     /\ IF q.plot_max THEN \E p \in Best : (Cardinality(Best) = 1) => (ax.w = <<x[p[2]]>> /\ ax.h = <<y[p[1]]>>) ELSE ax.w = <<>> /\ ax.h = <<>>
\* ---- 3D modes: A[f][i][j][k][v][m]
Idx3(sh, g(_, _, _)) == CHOOSE p \in (1..sh[1]) \X (1..sh[2]) \X (1..sh[3]) : \A e \in (1..sh[1]) \X (1..sh[2]) \X (1..sh[3]) : g(p[1], p[2], p[3]) >= g(e[1], e[2], e[3])
Panel3(r, ax, f, v, m, part) ==
  LET q == r.req sh == <<q.shape[2], q.shape[3], q.shape[4]>>
      X == <<q.x1, q.x2, q.x3>>
      p == FirstFit(sh, <<Len(q.x1), Len(q.x2), Len(q.x3)>>)
      a == Remain(q.slice_dim)
      x == X[p[a[1]]] y == X[p[a[2]]]
      Ab(i, j, k) == Sq(r.A[f][i][j][k][v + 1][m + 1])
      id == IF q.slice_id >= 0 THEN q.slice_id ELSE Idx3(sh, Ab)[q.slice_dim + 1] - 1
      P(R, C) == Slice(sh, q.slice_dim, id, q.fftshift, R - 1, C - 1)
      F(R, C) == LET t == P(R, C) IN r.A[f][t[1] + 1][t[2] + 1][t[3] + 1][v + 1][m + 1][part]
      E(R, C) == LET t == P(R, C) IN Sq(r.A[f][t[1] + 1][t[2] + 1][t[3] + 1][v + 1][m + 1])
      Best == {<<R, C>> \in (1..Len(y)) \X (1..Len(x)) : \A c \in 1..Len(y) : \A d \in 1..Len(x) : E(R, C) >= E(c, d)}
      nm == <<"x1", "x2", "x3">>
  IN /\ One(ax.z) /\ FieldIs(ax.z[1], x, y, F) /\ ax.lines = <<>>
     /\ ax.xl = nm[p[a[1]]] /\ ax.yl = nm[p[a[2]]]
     /\ IF q.plot_max THEN \E z \in Best : (Cardinality(Best) = 1) => (ax.w = <<x[z[2]]>> /\ ax.h = <<y[z[1]]>>) ELSE ax.w = <<>> /\ ax.h = <<>>
Panels(r, ax, P(_, _)) == IF r.req.imaginary THEN Len(ax) = 2 /\ \E a, b \in {1, 2} : a # b /\ ax[a].t = "re" /\ ax[b].t = "im" /\ P(ax[a], 1) /\ P(ax[b], 2)
                          ELSE Len(ax) = 1 /\ P(ax[1], 1)
Wanted(r) == {<<v, m>> : v \in SetOfSeq(r.req.vars), m \in {k \in SetOfSeq(r.req.modes) : k < r.req.shape[Len(r.req.shape)]}}
Named(r, fg, v, m) == fg.tn.v = <<v>> /\ fg.tn.m = <<m>> /\ (fg.file => fg.fn.v = <<v>> /\ fg.fn.m = <<m>>)
Modes(r, P(_, _, _, _, _)) ==
  LET fs == {f \in 1..r.req.shape[1] : Nearest(r.req.freq, r.req.freq_req, f)} W == Wanted(r) IN
  When(Len(r.figs) = Cardinality(W) /\ \A w \in W : \E k \in DOMAIN r.figs : Named(r, r.figs[k], w[1], w[2]), "one picture, named after it, for every variable and mode asked for")
  \cup When(\E f \in fs : \A w \in W : \A k \in DOMAIN r.figs : Named(r, r.figs[k], w[1], w[2]) =>
              Panels(r, r.figs[k].ax, LAMBDA a, part : P(a, f, w[1], w[2], part)), "picture shows the mode at the nearest frequency, every value at the coordinates of its point")
\* ---- tracers

RECURSIVE Dig(_, _, _)
Dig(a, i, d) == IF d > Len(i) THEN a ELSE Dig(a[i[d]], i, d + 1)
Pts(axes, q) == IF Len(axes) = 1 THEN {<<i>> : i \in {k \in 1..Len(axes[1]) : Nearest(axes[1], q[1], k)}}
                ELSE IF Len(axes) = 2 THEN {<<i, j>> : i \in {k \in 1..Len(axes[1]) : Nearest(axes[1], q[1], k)}, j \in {k \in 1..Len(axes[2]) : Nearest(axes[2], q[2], k)}}
                ELSE {<<i, j, k>> : i \in {x \in 1..Len(axes[1]) : Nearest(axes[1], q[1], x)}, j \in {x \in 1..Len(axes[2]) : Nearest(axes[2], q[2], x)}, k \in {x \in 1..Len(axes[3]) : Nearest(axes[3], q[3], x)}}

OscOk(ln, z, s) == \A k \in DOMAIN ln.y : Abs(100 * ln.y[k] - (z[1] * ln.c[k] + s * z[2] * ln.s[k])) <= 100 + Abs(z[1]) + Abs(z[2])
\* the point that the frequency shift (half a turn of the second axis) brings to position p
Rolled(r, p) == IF ~r.req.fftshift THEN p ELSE LET n == r.req.shape[3] IN [p EXCEPT ![2] = ((p[2] - 1 + n - (n \div 2)) % n) + 1]
MTFig(r, fg, f, q, v, S) == /\ Len(fg.ax) = Len(r.req.modes)
  /\ \E p \in Pts(r.req.xs, q) : \E s \in S : \A k \in DOMAIN fg.ax :
       LET z == Dig(r.A[f], Rolled(r, p), 1)[v + 1][r.req.modes[k] + 1] IN Len(fg.ax[k].lines) = 1 /\ fg.ax[k].lines[1].n >= 10 /\ OscOk(fg.ax[k].lines[1], z, s) /\ fg.ax[k].yl = r.req.labels[k]
MTrace(r) == LET fs == {f \in 1..r.req.shape[1] : Nearest(r.req.freq, r.req.freq_req, f)} W == (DOMAIN r.req.coords) \X SetOfSeq(r.req.vars) IN
  When(Len(r.figs) = Cardinality(W) /\ \A k \in DOMAIN r.figs : r.figs[k].file => r.figs[k].fn.v # <<>>, "one figure of tracers for every point and variable asked for")
  \cup When(\E f \in fs : \A w \in W : \E k \in DOMAIN r.figs : (r.figs[k].file => r.figs[k].fn.v = <<w[2]>>) /\ MTFig(r, r.figs[k], f, r.req.coords[w[1]], w[2], {1, -1}), "tracers are the modes at the nearest point, oscillating at their frequency")
\* the ways of turning (sign of the exponent) that explain a record; the library must have one for all modes, of positive and negative frequencies
Turns(r) == IF r.what # "mtrace" THEN {1, -1}
  ELSE LET fs == {f \in 1..r.req.shape[1] : Nearest(r.req.freq, r.req.freq_req, f)} W == (DOMAIN r.req.coords) \X SetOfSeq(r.req.vars) IN
    IF Cardinality(fs) # 1 THEN {1, -1}
    ELSE {s \in {1, -1} : \E f \in fs : \A w \in W : \E k \in DOMAIN r.figs : (r.figs[k].file => r.figs[k].fn.v = <<w[2]>>) /\ MTFig(r, r.figs[k], f, r.req.coords[w[1]], w[2], {s})}
DTrace(r) == LET W == (DOMAIN r.req.coords) \X SetOfSeq(r.req.vars) q == r.req IN
  When(Len(r.figs) = Cardinality(W), "one figure for every point and variable asked for")
  \cup When(\A w \in W : \E k \in DOMAIN r.figs : LET fg == r.figs[k] IN (fg.file => fg.fn.v = <<w[2]>>) /\ Len(fg.ax) = 1 /\ Len(fg.ax[1].lines) = 1
              /\ fg.ax[1].lines[1].x = [t \in 1..q.tlim[2] - q.tlim[1] |-> 1000 * (q.tlim[1] + t - 1)]
              /\ \E p \in Pts(q.xs, q.coords[w[1]]) : fg.ax[1].lines[1].y = [t \in 1..q.tlim[2] - q.tlim[1] |-> Dig(r.A[q.tlim[1] + t], p, 1)[w[2] + 1]],
          "tracer is the data of the nearest point in the window asked for")
\* ---- 2D data A[t][i][j][v]
DVal(r, t, v, R, C) == LET q == r.req p == At(q.shape[2], q.shape[3], Len(q.x1), Len(q.x2), FALSE, FALSE, R, C) IN r.A[t + 1][p[1] + 1][p[2] + 1][v + 1]
DataIs(r, z, t, v) == FieldIs(z, r.req.x1, r.req.x2, LAMBDA a, b : DVal(r, t, v, a - 1, b - 1))
Data2(r) == LET W == SetOfSeq(r.req.times) \X SetOfSeq(r.req.vars) N2(fg, w) == fg.tn.t = <<w[1]>> /\ fg.tn.v = <<w[2]>> /\ (fg.file => fg.fn.t = <<w[1]>> /\ fg.fn.v = <<w[2]>>) IN
  When(Len(r.figs) = Cardinality(W) /\ \A w \in W : \E k \in DOMAIN r.figs : N2(r.figs[k], w), "one picture, named after it, for every variable and time asked for")
  \cup When(\A w \in W : \A k \in DOMAIN r.figs : N2(r.figs[k], w) => Len(r.figs[k].ax) = 1 /\ One(r.figs[k].ax[1].z) /\ DataIs(r, r.figs[k].ax[1].z[1], w[1], w[2]), "picture shows the data, every value at the coordinates of its point")
Video(r) == LET q == r.req T == [k \in 1..CeilDiv(q.tlim[2] - q.tlim[1], q.sampling) |-> q.tlim[1] + (k - 1) * q.sampling] IN
  When(Len(r.figs) = Cardinality(SetOfSeq(q.vars)) /\ \A v \in SetOfSeq(q.vars) : \E k \in DOMAIN r.figs : r.figs[k].fn.v = <<v>>, "one film for every variable asked for")
  \cup When(\A v \in SetOfSeq(q.vars) : \A k \in DOMAIN r.figs : r.figs[k].fn.v = <<v>> =>
             /\ Len(r.figs[k].ax) = 1 /\ Len(r.figs[k].ax[1].z) = Len(T) /\ \A t \in DOMAIN T : DataIs(r, r.figs[k].ax[1].z[t], T[t], v), "frames of a film are the sampled times in order")
\* ---- lines
Lines(r, ls) == Len(r.figs) = 1 /\ Len(r.figs[1].ax) = 1 /\ Len(r.figs[1].ax[1].lines) = Len(ls)
                /\ \A k \in DOMAIN ls : r.figs[1].ax[1].lines[k].x = ls[k].x /\ r.figs[1].ax[1].lines[k].y = ls[k].y
Eigs(r) == When(LET q == r.req IN Lines(r, [k \in 1..Len(q.eigs[1]) |->
                  [x |-> [f \in 1..Len(q.eigs) |-> 1000 * (IF r.what = "eigs" THEN q.eigs[f][k] ELSE q.freq[f])], y |-> [f \in 1..Len(q.eigs) |-> IF r.what = "eigs" THEN r.im[f][k] ELSE q.eigs[f][k]]]]),
                "one curve per mode, every eigenvalue at its abscissa")
Ramp(n) == [k \in 1..n |-> 1000 * (k - 1)]
Coeffs(r) == When(Len(r.figs) = Len(r.req.idx) /\ \A k \in DOMAIN r.figs : LET i == r.req.idx[k] fg == r.figs[k] IN
                  (fg.file => fg.fn.c = <<i>>) /\ Len(fg.ax) = 1 /\ fg.ax[1].yl = r.req.labels[k] /\ Len(fg.ax[1].lines) = 1
                  /\ fg.ax[1].lines[1].y = r.req.coeffs[i + 1] /\ fg.ax[1].lines[1].x = Ramp(Len(r.req.coeffs[i + 1])), "one curve, named after it, for every coefficient asked for")
Series(r) == When(Lines(r, << [x |-> Ramp(Len(r.req.a)), y |-> r.req.a], [x |-> Ramp(Len(r.req.b)), y |-> r.req.b] >>), "both series are drawn, the first one first")
Sub2(r) == When(Len(r.figs) = 1 /\ Len(r.figs[1].ax) = Len(r.req.vals) /\ \A k \in DOMAIN r.req.vals : One(r.figs[1].ax[k].z) /\ r.figs[1].ax[k].z[1].v = r.req.vals[k], "every field is drawn in its own panel")
\* ---- energy spectrum: e (scale 1000) = n^2 times the spectrum; E(k) = (|U_k|^2 + |U_n-k|^2) / 4 for 0 < k < n/2
Co(r, k) == [t \in 1..Len(r.req.u) |-> r.req.cs[((k * (t - 1)) % Len(r.req.u)) + 1]]
Si(r, k) == [t \in 1..Len(r.req.u) |-> r.req.sn[((k * (t - 1)) % Len(r.req.u)) + 1]]
Dot(a, b) == SumSeq([t \in DOMAIN a |-> a[t] * b[t]])
EnSpec(r) == LET n == Len(r.req.u) IN
  When(r.elen = n \div 2 /\ \A k \in 1..(n \div 2) - 1 : LET a == Dot(r.req.u, Co(r, k)) b == Dot(r.req.u, Si(r, k)) e == ((a * a) \div 1000) + ((b * b) \div 1000)
         IN Abs(r.e[k + 1] - (e \div 2)) <= 100 + (e \div 100), "energy spectrum is the mean square of the transform at each wave number")
\* ---- report: for each mode, each peak of its eigenvalues: a page with the spectrum and the peak marked, and a page with the mode there
EV(r, i, k) == r.req.eigs[i + 1][k]
Peak(r, k, i) == LET n == Len(r.req.eigs) - 1 lo == Max(i - 5, 1) hi == Min(i + 4, n) f == r.req.freq[i + 1] v == EV(r, i, k) IN
  /\ 2 * v * (hi - lo + 1) > 3 * SumSeq([j \in 1..hi - lo + 1 |-> EV(r, lo + j - 1, k)])
  /\ (i > 1 => v > EV(r, i - 1, k)) /\ (i < n => v > EV(r, i + 1, k))
  /\ \A j \in 1..n : 10 * Abs(r.req.freq[j + 1] - f) <= Abs(f) => EV(r, j, k) <= v
Peaks(r) == LET n == Len(r.req.eigs) - 1 all == [q \in 1..n * Len(r.req.eigs[1]) |-> <<((q - 1) \div n) + 1, ((q - 1) % n) + 1>>] IN SelectSeq(all, LAMBDA p : Peak(r, p[1], p[2]))
\* t: hundredths of the unit shown; the period is D / g hours
PeriodIs(t, u, D, g) == LET a == Abs(g) In(n, m) == Abs(t * a * m - 100 * D * n * (IF g < 0 THEN -1 ELSE 1)) <= a * m + (2 * D * n) IN
  CASE D < a -> u = "minutes" /\ In(60, 1) [] D >= a /\ D < 24 * a -> u = "hours" /\ In(1, 1)
    [] D >= 24 * a /\ D < 730 * a -> u = "days" /\ In(1, 24) [] D > 731 * a /\ D < 8766 * a -> u = "months" /\ In(1, 730)
    [] D >= 8766 * a -> u = "years" /\ In(1, 8766) [] OTHER -> TRUE
Report(r) == LET q == r.req P == Peaks(r) nm == Len(q.eigs[1]) n == Len(q.eigs) - 1 xs == [i \in 1..n |-> q.freq[i + 1]] IN
  When(Len(r.figs) = 2 * Len(P), "two pages for every peak of every mode")
  \cup When(Len(r.figs) = 2 * Len(P) => \A k \in DOMAIN P : LET fg == r.figs[2 * k - 1] m == P[k][1] i == P[k][2] IN
         /\ Len(fg.ax) = 1 /\ fg.tn.m = <<m - 1>> /\ Len(fg.ax[1].lines) = nm + 1 /\ fg.ax[1].z = <<>>
         /\ \A c \in 1..nm : fg.ax[1].lines[c].x = xs /\ fg.ax[1].lines[c].y = [j \in 1..n |-> EV(r, j, c)]
         /\ fg.ax[1].lines[nm + 1].x = <<xs[i]>> /\ fg.ax[1].lines[nm + 1].y = <<EV(r, i, m)>>
         /\ Len(fg.per) = 1 /\ (q.unit = "hours" => PeriodIs(fg.per[1][1], fg.per[1][2], q.D, xs[i])), "spectrum page shows all eigenvalues, with the peak and its period")
  \cup When(Len(r.figs) = 2 * Len(P) => \A k \in DOMAIN P : LET fg == r.figs[2 * k] IN
         /\ fg.tn.v = <<0>> /\ fg.tn.m = <<P[k][1] - 1>> /\ Len(fg.ax) = 1 /\ fg.ax[1].coast = <<"regular">> /\ Panel2(r, fg.ax[1], P[k][2] + 1, 0, P[k][1] - 1, 1),
         "mode page shows the mode at the peak")
Coast(r) == When(\A k \in DOMAIN r.figs : \A a \in DOMAIN r.figs[k].ax : LET x == r.figs[k].ax[a] IN
                 x.coast = IF r.req.coast = "" THEN <<>> ELSE [z \in 1..Len(x.z) |-> r.req.coast], "the coastline asked for is drawn, once per picture")
\* nothing drawn lies outside of what is shown: neither beyond the limits of the axes nor beyond the range of the colours (thousandths)
Holds(lim, put) == put = <<>> \/ (lim # <<>> /\ lim[1] <= put[1] + 1 + (Abs(put[1]) \div 100000) /\ put[2] <= lim[2] + 1 + (Abs(put[2]) \div 100000))
\* the ticks asked for, labelled with their values
Ticks(r) == When(\A k \in DOMAIN r.figs : \A a \in DOMAIN r.figs[k].ax : LET x == r.figs[k].ax[a].view q == r.req IN
                 (q.xticks # <<>> => x.x.ticks = q.xticks /\ x.x.labels = q.xticks) /\ (q.yticks # <<>> => x.y.ticks = q.yticks /\ x.y.labels = q.yticks), "ticks are where asked for, labelled with their coordinates")
Shown(r) == When(\A k \in DOMAIN r.figs : \A a \in DOMAIN r.figs[k].ax : LET x == r.figs[k].ax[a] IN Holds(x.view.x.lim, x.view.x.put) /\ Holds(x.view.y.lim, x.view.y.put),
                 "everything drawn is within the limits of its axes")
            \cup When(\A k \in DOMAIN r.figs : \A a \in DOMAIN r.figs[k].ax : \A c \in DOMAIN r.figs[k].ax[a].cols : LET x == r.figs[k].ax[a].cols[c] IN Holds(x.lim, x.put) /\ Holds(x.lev, x.put),
                 "every value drawn is within the range of the colours")
Fails(r) == (CASE r.what = "modes2" -> Modes(r, LAMBDA a, f, v, m, part : Panel2(r, a, f, v, m, part))
               [] r.what = "report" -> Report(r)
               [] r.what = "modes3" -> Modes(r, LAMBDA a, f, v, m, part : Panel3(r, a, f, v, m, part))
               [] r.what = "mtrace" -> MTrace(r) [] r.what = "dtrace" -> DTrace(r) [] r.what = "data2" -> Data2(r) [] r.what = "video" -> Video(r)
               [] r.what \in {"eigs", "eigf", "eigp"} -> Eigs(r) [] r.what = "coeffs" -> Coeffs(r) [] r.what \in {"series", "hist"} -> Series(r)
               [] r.what = "sub2" -> Sub2(r) [] OTHER -> EnSpec(r))
            \cup (IF r.what \in {"modes2", "modes3", "data2", "video"} THEN Coast(r) ELSE {})
            \cup Shown(r) \cup Ticks(r)
            \cup When(r.kept, "coordinates passed in are left alone")
            \cup When(\A k \in DOMAIN r.figs : r.figs[k].indir /\ r.figs[k].file = r.req.save /\ (r.req.save => r.figs[k].ext \in {".png", ".mp4", ".pdf"}), "pictures are saved where asked, or shown")
Init == l = 1 /\ bad = {} /\ turn = {1, -1}
Next == /\ l <= Len(Trace)
        /\ LET r == Trace[l]  t == TLCEval(Turns(r)) IN
             /\ bad' = bad \cup {<<r.id, c>> : c \in Fails(r)} \cup (IF t # {} /\ turn \cap t = {} THEN {<<r.id, "tracers of positive and negative frequencies turn the same way">>} ELSE {})
             /\ turn' = IF turn \cap t = {} THEN turn ELSE turn \cap t
        /\ l' = l + 1
        /\ (l = Len(Trace) => Emit(bad'))
Spec == Init /\ [][Next]_<<l, bad, turn>>
Done == Consumed
====
