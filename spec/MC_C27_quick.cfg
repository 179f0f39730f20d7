SPECIFICATION Spec
CONSTANTS Depth = 5 Sel = 40 Sel2 = 6
INVARIANTS Repeatable Involution Emit
PROPERTIES Pure Stable
CHECK_DEADLOCK FALSE
