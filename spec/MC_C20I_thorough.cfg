SPECIFICATION Spec
CONSTANTS P = 3 U = 2 D = 1 N = 3 MaxVer = 2 Direct = FALSE
INVARIANTS CompleteFiles CompleteReturned
PROPERTIES Refines
CHECK_DEADLOCK FALSE
