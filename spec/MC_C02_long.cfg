SPECIFICATION Spec
CONSTANTS MaxLen = 7 XKinds = {"num"}
INVARIANTS WetLine NoInvention DryStep DryStepNum DryBetweenComplete LengthKept SameAsCheck Emit
CHECK_DEADLOCK FALSE
