SPECIFICATION Spec
CONSTANTS F = 3 N = 3 MaxRanks = 3
INVARIANTS ResidualOrthogonal SerialCoefficients SpanReproduced RecIsModel FileComplete
CHECK_DEADLOCK FALSE
