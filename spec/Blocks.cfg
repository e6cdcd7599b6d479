SPECIFICATION Spec
CONSTANTS MaxNt = 11
 MaxN = 5
 Overlaps = {0, 25, 50, 75}
 MaxChunks = 3
INVARIANTS Complete Inside NoMore Rest Overlap
CHECK_DEADLOCK FALSE
