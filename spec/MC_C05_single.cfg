SPECIFICATION Spec
CONSTANTS Fs = {} Mode = "single"
INVARIANTS Increasing Positive Complete Spellings Emit
CHECK_DEADLOCK FALSE
