SPECIFICATION Spec
CONSTANTS MaxN = 40
 MaxSize = 9
INVARIANTS Disjoint Order Balanced Complete Owned
CHECK_DEADLOCK FALSE
