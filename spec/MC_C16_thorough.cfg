SPECIFICATION Spec
CONSTANTS MaxN = 4 Keep = 40
INVARIANTS Counts OrderFree PearsonBounded VarNonNeg ErrorOrder Swap WetEventsRain Emit
CHECK_DEADLOCK FALSE
