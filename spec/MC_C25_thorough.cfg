SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS NonNegative MissingStart NoneMissing WindowReach Emit
CHECK_DEADLOCK FALSE
