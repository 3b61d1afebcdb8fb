SPECIFICATION TSpec
CONSTANTS
 Deref <- ByName
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
