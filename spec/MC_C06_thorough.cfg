SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Start Capped DrySteps WetSteps MissingOnlyThere NoJump Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
