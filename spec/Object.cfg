SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Overlaps = {0}
 MaxFits = 3
 MaxCalls = 1
INVARIANTS Described FileLatest
CONSTRAINT Note
POSTCONDITION EveryFlawSeen
