SPECIFICATION Spec
CONSTANTS N = 4
 M = 2
 V = 4
INVARIANTS ScanNearest Grid
CHECK_DEADLOCK FALSE
