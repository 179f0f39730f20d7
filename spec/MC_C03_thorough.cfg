SPECIFICATION Spec
CONSTANTS MaxLen = 8
INVARIANTS OnlyMissing WholeRuns Found NoGapNoMask Conf Emit
CHECK_DEADLOCK FALSE
