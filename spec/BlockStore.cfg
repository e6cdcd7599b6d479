SPECIFICATION Spec
CONSTANTS Blks = {0, 1}
 Frqs = {0, 1}
 Recs = {1, 2}
 Ranks = {0, 1}
 D = 4
 Emitting = FALSE
INVARIANTS OwnBlocks
CHECK_DEADLOCK FALSE
