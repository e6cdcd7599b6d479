SPECIFICATION Spec
CONSTANTS N = 5
 NV = 2
 NM = 2
INVARIANTS Right Once Bij
PROPERTY AllDrawn
CHECK_DEADLOCK FALSE
