SPECIFICATION Spec
INVARIANTS Signed Distinct OneEntry
CHECK_DEADLOCK FALSE
