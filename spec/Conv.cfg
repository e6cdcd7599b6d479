SPECIFICATION Spec
CONSTANTS F = 3 N = 2 NT = 3 WL = 2 Stride = 1 MaxRanks = 2
INVARIANTS Serial BlockLink Local
CHECK_DEADLOCK FALSE
