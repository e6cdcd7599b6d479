SPECIFICATION Spec
CONSTANTS MaxT = 4
 MaxP = 2
 MaxX = 3
INVARIANTS Complete Readers Points
CHECK_DEADLOCK FALSE
