SPECIFICATION Spec
CONSTANTS MaxN = 3 Keep = 9
INVARIANTS ShapeOK GeneratedCovers AllMissing Emit
PROPERTY NoInfluence
CHECK_DEADLOCK FALSE
