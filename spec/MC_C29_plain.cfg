SPECIFICATION Spec
CONSTANTS MaxLen = 4 Full = 2 Sel = 43 N = 1 Waa = FALSE
INVARIANTS GapsStay NoRainWithoutExcess NeverNegative MoreExcessMoreRain DrySteps Emit
PROPERTIES Causal
CHECK_DEADLOCK FALSE
