SPECIFICATION Spec
CONSTANTS N1 = 9
 N2 = 4
 N3 = 3
 NV = 3
 RS = 3
INVARIANTS Total Symmetric Peaked Scaled Layout
CHECK_DEADLOCK FALSE
