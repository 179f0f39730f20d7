SPECIFICATION Spec
CONSTANTS MaxN = 4 Keep = 40
INVARIANTS ShapeOK GeneratedCovers AllMissing Emit
PROPERTY NoInfluence
CHECK_DEADLOCK FALSE
