SPECIFICATION Spec
CONSTANTS F = 3
 N = 2
 T = 2
 MaxRanks = 3
INVARIANTS AllLoaded GramWhole Symmetric Orthogonal Energy Coefficients Uncorrelated
CHECK_DEADLOCK FALSE
