SPECIFICATION Spec
CONSTANTS Blks = {0, 1}
 Frqs = {0, 1}
 Recs = {1, 2}
 Ranks = {0, 1, 2}
 D = 4
 Emitting = TRUE
INVARIANTS OwnBlocks Emit
CHECK_DEADLOCK FALSE
