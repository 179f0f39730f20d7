SPECIFICATION Spec
CONSTANTS MaxT = 3 Keep = 60
INVARIANTS DropNeverPositive Classified QuietDry Justified SameNeighbourhood FNeedsPeriod Emit
CHECK_DEADLOCK FALSE
