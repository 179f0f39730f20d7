SPECIFICATION Spec
CONSTANTS MaxLen = 6 Full = 3 Sel = 61 N = 2 Waa = TRUE
INVARIANTS GapsStay NoRainWithoutExcess NeverNegative MoreExcessMoreRain DrySteps Emit
PROPERTIES Causal
CHECK_DEADLOCK FALSE
