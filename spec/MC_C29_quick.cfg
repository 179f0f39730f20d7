SPECIFICATION Spec
CONSTANTS MaxLen = 5 Full = 2 Sel = 43 N = 2 Waa = TRUE
INVARIANTS GapsStay NoRainWithoutExcess NeverNegative MoreExcessMoreRain DrySteps Emit
PROPERTIES Causal
CHECK_DEADLOCK FALSE
