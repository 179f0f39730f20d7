SPECIFICATION Spec
CONSTANTS Depth = 4 Sel = 20
INVARIANTS HeldQuiet AtMostOnce Emit
PROPERTIES Held
CHECK_DEADLOCK FALSE
