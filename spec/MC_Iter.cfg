SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS InOrder FlagsLast
CHECK_DEADLOCK FALSE
