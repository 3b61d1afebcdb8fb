SPECIFICATION TSpec
CONSTANTS
 Deref <- Inline
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
