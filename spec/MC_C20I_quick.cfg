SPECIFICATION Spec
CONSTANTS P = 2 U = 2 D = 1 N = 2 MaxVer = 2 Direct = FALSE
INVARIANTS CompleteFiles CompleteReturned
PROPERTIES Refines
CHECK_DEADLOCK FALSE
