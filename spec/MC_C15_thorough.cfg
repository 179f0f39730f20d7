SPECIFICATION Spec
CONSTANTS MaxN = 6 Keep = 20
INVARIANTS Partition MissingCounts OrderFree WetDrySwap MccBounded PerfectIsOne Emit
CHECK_DEADLOCK FALSE
