SPECIFICATION Spec
CONSTANTS Sel = 9
INVARIANTS Exclusive Refused Emit
CHECK_DEADLOCK FALSE
