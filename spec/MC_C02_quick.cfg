SPECIFICATION Spec
CONSTANTS MaxLen = 5 XKinds = {"num", "nan"}
INVARIANTS WetLine NoInvention DryStep DryStepNum DryBetweenComplete LengthKept SameAsCheck Emit
CHECK_DEADLOCK FALSE
