SPECIFICATION Spec
CONSTANTS NT = 7
 P = 1
 Vals = {0, 1, 3}
 Stride4 = 1
INVARIANTS Inside Conj Hermitian Psd TraceIsEnergy OneSidedTotal Parseval
PROPERTY Completes
CHECK_DEADLOCK FALSE
