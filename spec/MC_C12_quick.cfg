SPECIFICATION Spec
CONSTANTS MaxN = 3 Keep = 8
INVARIANTS NonEmpty MissingOnlyIf NoStationMissing Between ExactAtStation OrderFree Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
