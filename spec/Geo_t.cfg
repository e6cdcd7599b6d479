SPECIFICATION Spec
CONSTANTS N1 = 14
 N2 = 7
 N3 = 4
 NV = 3
 RS = 4
INVARIANTS Total Symmetric Peaked Scaled Layout
CHECK_DEADLOCK FALSE
