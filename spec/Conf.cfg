SPECIFICATION Spec
INVARIANTS Bracket Nested
CHECK_DEADLOCK FALSE
