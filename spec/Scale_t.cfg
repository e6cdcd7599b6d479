SPECIFICATION Spec
CONSTANTS R = 2
 T = 3
 V = 2
INVARIANTS Inverse Bounded Local
CHECK_DEADLOCK FALSE
