SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 3}
 MaxN = 4
 MaxP = 3
INVARIANTS Exact Known
CHECK_DEADLOCK FALSE
