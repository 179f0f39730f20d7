SPECIFICATION Spec
INVARIANTS Bounded ZeroRain Positive Thicker Emit
CHECK_DEADLOCK FALSE
