SPECIFICATION Spec
CONSTANTS MaxT = 4 Keep = 12
INVARIANTS WetNeverContributes RefInRange NotAboveRef DryIsRef RainNonNegative NoRainWhenDry Emit
PROPERTY Causal
CHECK_DEADLOCK FALSE
