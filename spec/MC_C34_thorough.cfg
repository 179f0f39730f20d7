SPECIFICATION Spec
CONSTANTS Depth = 5 Sel = 150
INVARIANTS Anywhere Same Emit
PROPERTIES Snapshot ReadOnly
CHECK_DEADLOCK FALSE
