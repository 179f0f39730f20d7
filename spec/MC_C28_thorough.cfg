SPECIFICATION Spec
CONSTANTS MaxLen = 6 N = 2
INVARIANTS Pace Judged Emit
PROPERTIES Causal
CHECK_DEADLOCK FALSE
