---- MODULE Geo ----
(* Integration weights of a latitude-longitude grid (n1 latitudes from pole to pole, n2 equidistant meridians, n3 levels, nv
   variables): the weight of a point is the area of its cell on a sphere of radius R, the same for every meridian, level and
   variable, laid out like the data.  The machine integrates a band after the other; the total is the area of the sphere up to the
   error of the trapezoidal rule, the two hemispheres are equal, and the layout visits every point once. *)
EXTENDS Kernels, VLib
CONSTANTS N1, N2, N3, NV, RS
VARIABLES n1, n2, n3, nv, R, i, acc
vars == <<n1, n2, n3, nv, R, i, acc>>
\* weight (scale 10^6, in units of the longitude spacing) of a point
W(a, r, lat) == r * r * LAT[a][lat + 1]
\* flat position, in C order over (latitude, longitude, level, variable), of a point - and back
Flat(sh, p) == ((p[1] * sh[2] + p[2]) * sh[3] + p[3]) * sh[4] + p[4]
Point(sh, q) == <<q \div (sh[2] * sh[3] * sh[4]), (q \div (sh[3] * sh[4])) % sh[2], (q \div sh[4]) % sh[3], q % sh[4]>>
Init == /\ n1 \in 3..N1 /\ n2 \in 1..N2 /\ n3 \in 1..N3 /\ nv \in 1..NV /\ R \in 1..RS /\ i = 0 /\ acc = 0
Next == /\ i < n1 /\ acc' = acc + n2 * W(n1, R, i) /\ i' = i + 1 /\ UNCHANGED <<n1, n2, n3, nv, R>>
Spec == Init /\ [][Next]_vars
\* area of the band structure, per unit spacing: 2 R^2 n2 (scale 10^6) within h^2/12 relative plus rounding
Total == i = n1 => Abs(acc - 2000000 * R * R * n2) <= R * R * n2 * ((1810000 \div ((n1 - 1) * (n1 - 1))) + n1)
Symmetric == \A k \in 0..n1 - 1 : Abs(W(n1, R, k) - W(n1, R, n1 - 1 - k)) <= R * R
Peaked == \A k \in 0..n1 - 2 : 2 * (k + 1) <= n1 - 1 => W(n1, R, k) < W(n1, R, k + 1)
Scaled == \A k \in 0..n1 - 1 : W(n1, R, k) = R * R * W(n1, 1, k)
Layout == i = 0 => LET sh == <<n1, n2, n3, nv>> IN
  /\ \A q \in 0..n1 * n2 * n3 * nv - 1 : Flat(sh, Point(sh, q)) = q
  /\ \A a \in 0..n1 - 1 : \A b \in 0..n2 - 1 : \A c \in 0..n3 - 1 : \A v \in 0..nv - 1 : Point(sh, Flat(sh, <<a, b, c, v>>)) = <<a, b, c, v>>
====
