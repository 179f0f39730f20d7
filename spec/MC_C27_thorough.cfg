SPECIFICATION Spec
CONSTANTS Depth = 6 Sel = 25 Sel2 = 4
INVARIANTS Repeatable Involution Emit
PROPERTIES Pure Stable
CHECK_DEADLOCK FALSE
