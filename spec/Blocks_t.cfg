SPECIFICATION Spec
CONSTANTS MaxNt = 14
 MaxN = 7
 Overlaps = {0, 10, 25, 33, 50, 66, 75}
 MaxChunks = 3
INVARIANTS Complete Inside NoMore Rest Overlap
CHECK_DEADLOCK FALSE
