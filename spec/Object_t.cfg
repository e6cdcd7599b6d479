SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Overlaps = {0, 2}
 MaxFits = 4
 MaxCalls = 2
INVARIANTS Described FileLatest
CONSTRAINT Note
POSTCONDITION EveryFlawSeen
