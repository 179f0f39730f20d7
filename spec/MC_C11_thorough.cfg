SPECIFICATION Spec
CONSTANTS MaxT = 5 Keep = 50
INVARIANTS WetNeverContributes RefInRange NotAboveRef DryIsRef RainNonNegative NoRainWhenDry Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
