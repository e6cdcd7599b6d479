SPECIFICATION Spec
CONSTANTS NT = 2
 NX = 2
 V = 1
INVARIANTS Zero Positive H1Null Symmetric Layout Order Triangle
CHECK_DEADLOCK FALSE
