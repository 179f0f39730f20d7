SPECIFICATION Spec
CONSTANTS Depth = 4 Sel = 130
INVARIANTS Anywhere Same Emit
PROPERTIES Snapshot ReadOnly
CHECK_DEADLOCK FALSE
