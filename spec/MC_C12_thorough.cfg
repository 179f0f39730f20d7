SPECIFICATION Spec
CONSTANTS MaxN = 4 Keep = 60
INVARIANTS NonEmpty MissingOnlyIf NoStationMissing Between ExactAtStation OrderFree Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
