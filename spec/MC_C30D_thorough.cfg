SPECIFICATION Spec
CONSTANTS Sel = 1
INVARIANTS Exclusive Refused Emit
CHECK_DEADLOCK FALSE
