SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3}
 MaxP = 4
 MaxStale = 2
INVARIANTS Exact Disjoint
PROPERTY Finishes
CHECK_DEADLOCK FALSE
