SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Missing NonNegative Threshold Negative Monotone InverseLaw Args Emit
PROPERTY Elementwise
CHECK_DEADLOCK FALSE
