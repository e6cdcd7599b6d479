---- MODULE Conf ----
(* Confidence bounds.  State of the trace specification: for every (number of blocks, level) the observed factors
   lower/eig and upper/eig (units of 1e-6).  Design model below: any factor tables that satisfy Bracket and Nested
   give intervals that contain the eigenvalue and are nested. *)
EXTENDS VLib
VARIABLES lo, up, eig
Levels == 1..3
Init == /\ lo \in [Levels -> 2..5] /\ up \in [Levels -> 5..8] /\ eig \in 0..5
        /\ \A c \in Levels : lo[c] <= 5 /\ up[c] >= 5          \* factors around 5/5
        /\ \A c \in Levels : c < 3 => lo[c+1] <= lo[c] /\ up[c+1] >= up[c]
Next == eig' \in 0..5 /\ UNCHANGED <<lo, up>>
Spec == Init /\ [][Next]_<<lo, up, eig>>
Bracket == \A c \in Levels : lo[c] * eig <= 5 * eig /\ 5 * eig <= up[c] * eig
Nested == \A a, b \in Levels : a <= b => lo[b] * eig <= lo[a] * eig /\ up[b] * eig >= up[a] * eig
====
