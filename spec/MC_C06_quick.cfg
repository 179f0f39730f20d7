SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Start Capped DrySteps WetSteps MissingOnlyThere NoJump Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
