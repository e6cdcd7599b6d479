SPECIFICATION Spec
CONSTANTS MaxT = 4
 MaxP = 3
 MaxX = 2
INVARIANTS Complete Readers Points
CHECK_DEADLOCK FALSE
