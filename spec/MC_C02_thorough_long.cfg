SPECIFICATION Spec
CONSTANTS MaxLen = 8 XKinds = {"num"}
INVARIANTS WetLine NoInvention DryStep DryStepNum DryBetweenComplete LengthKept SameAsCheck Emit
CHECK_DEADLOCK FALSE
