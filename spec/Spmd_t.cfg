SPECIFICATION Spec
CONSTANTS MaxX = 4
 MaxP = 3
 MaxFiles = 3
 Vals = {1, 2}
INVARIANTS Gram Files
CHECK_DEADLOCK FALSE
