SPECIFICATION Spec
INVARIANTS NoNew Reaches
CHECK_DEADLOCK FALSE
