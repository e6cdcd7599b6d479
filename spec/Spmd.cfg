SPECIFICATION Spec
CONSTANTS MaxX = 3
 MaxP = 3
 MaxFiles = 4
 Vals = {1, 2}
INVARIANTS Gram Files
PROPERTY Finishes
CHECK_DEADLOCK FALSE
