SPECIFICATION Spec
CONSTANTS N = 3
 M = 2
 V = 3
INVARIANTS ScanNearest Grid
CHECK_DEADLOCK FALSE
