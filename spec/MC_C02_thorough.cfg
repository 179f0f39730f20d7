SPECIFICATION Spec
CONSTANTS MaxLen = 6 XKinds = {"num", "nan"}
INVARIANTS WetLine NoInvention DryStep DryStepNum DryBetweenComplete LengthKept SameAsCheck Emit
CHECK_DEADLOCK FALSE
