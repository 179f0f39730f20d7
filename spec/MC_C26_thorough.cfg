SPECIFICATION Spec
CONSTANTS B = 5 Ds = {1, 2, 3} MaxL = 3 Keep = 53 Grids = {1, 2, 3, 4, 5}
INVARIANTS Incremental OrderFree Ends Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
