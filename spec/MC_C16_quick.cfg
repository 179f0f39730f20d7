SPECIFICATION Spec
CONSTANTS MaxN = 3 Keep = 5
INVARIANTS Counts OrderFree PearsonBounded VarNonNeg ErrorOrder Swap WetEventsRain Emit
CHECK_DEADLOCK FALSE
