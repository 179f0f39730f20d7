SPECIFICATION Spec
CONSTANTS Fs = {1, 2, 40, 60, 200, 201} Mode = "multi"
INVARIANTS Increasing Positive Complete Spellings Emit
CHECK_DEADLOCK FALSE
