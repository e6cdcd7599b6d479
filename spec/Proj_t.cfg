SPECIFICATION Spec
CONSTANTS F = 3 N = 4 MaxRanks = 4
INVARIANTS ResidualOrthogonal SerialCoefficients SpanReproduced RecIsModel FileComplete
CHECK_DEADLOCK FALSE
