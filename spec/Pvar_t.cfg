SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 4}
 MaxN = 4
 MaxP = 4
INVARIANTS Exact Known
CHECK_DEADLOCK FALSE
