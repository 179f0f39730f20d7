SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS NonNegative MissingStart NoneMissing WindowReach Emit
CHECK_DEADLOCK FALSE
