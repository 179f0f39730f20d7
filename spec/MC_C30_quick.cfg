SPECIFICATION Spec
CONSTANTS Depth = 3 Sel = 12
INVARIANTS HeldQuiet AtMostOnce Emit
PROPERTIES OptIn Held
CHECK_DEADLOCK FALSE
