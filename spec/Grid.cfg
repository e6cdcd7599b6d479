SPECIFICATION Spec
CONSTANTS MaxN = 17
 MaxSize = 6
INVARIANTS Disjoint Order Balanced Complete Owned
CHECK_DEADLOCK FALSE
