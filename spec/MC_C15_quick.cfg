SPECIFICATION Spec
CONSTANTS MaxN = 5 Keep = 12
INVARIANTS Partition MissingCounts OrderFree WetDrySwap MccBounded PerfectIsOne Emit
CHECK_DEADLOCK FALSE
