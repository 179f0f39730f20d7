SPECIFICATION Spec
CONSTANTS Years = {1900, 1904, 1970, 1999, 2000, 2013, 2016, 2021, 2022, 2023, 2024, 2100}
INVARIANTS Counted Bounded Periodic Half Circle Peak Emit
PROPERTIES Smooth
CHECK_DEADLOCK FALSE
