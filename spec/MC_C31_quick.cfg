SPECIFICATION Spec
CONSTANTS Years = {2013, 2024, 1900}
INVARIANTS Counted Bounded Periodic Half Circle Peak Emit
PROPERTIES Smooth
CHECK_DEADLOCK FALSE
