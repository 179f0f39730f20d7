SPECIFICATION Spec
CONSTANTS MaxLen = 5 Ns = {1, 2, 3} XKinds = {"num", "nan"}
INVARIANTS DryEqualsSignal FirstSteps MissingFlag ConstantInWet WetAfterMissing WetLevel LengthKept Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
