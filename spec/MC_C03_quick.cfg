SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS OnlyMissing WholeRuns Found NoGapNoMask Conf Emit
CHECK_DEADLOCK FALSE
