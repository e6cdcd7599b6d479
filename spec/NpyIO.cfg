SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3}
 MaxP = 3
 MaxStale = 1
INVARIANTS Exact Disjoint
PROPERTY Finishes
CHECK_DEADLOCK FALSE
