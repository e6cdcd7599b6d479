SPECIFICATION Spec
CONSTANTS NO = 3
 NF = 5
 LEN = 7
 Flaw = "none"
INVARIANTS Untouched Repeatable
