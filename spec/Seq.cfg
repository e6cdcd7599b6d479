SPECIFICATION Spec
CONSTANTS MaxT = 12
INVARIANTS Inside Starts Written
CHECK_DEADLOCK FALSE
