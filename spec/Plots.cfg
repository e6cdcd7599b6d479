SPECIFICATION Spec
CONSTANTS N = 4
 NV = 1
 NM = 2
INVARIANTS Right Once Bij
PROPERTY AllDrawn
CHECK_DEADLOCK FALSE
