SPECIFICATION Spec
CONSTANTS Depth = 5 Sel = 40
INVARIANTS Asked CoreWorks Recovers EnvFree Emit
PROPERTIES NoTrace LoadedStays
CHECK_DEADLOCK FALSE
