SPECIFICATION Spec
CONSTANTS MaxLen = 5 N = 2
INVARIANTS Pace Judged Emit
PROPERTIES Causal
CHECK_DEADLOCK FALSE
