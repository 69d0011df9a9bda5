SPECIFICATION Spec
CONSTANTS
 Elements <- Small
 MaxElems = 2
 MaxChunk = 3
INVARIANTS TypeOK Independent GivesUp
PROPERTY Finishes
CHECK_DEADLOCK FALSE
