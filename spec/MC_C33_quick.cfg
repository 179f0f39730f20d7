SPECIFICATION Spec
CONSTANTS Depth = 4 Sel = 25
INVARIANTS Asked CoreWorks Recovers EnvFree Emit
PROPERTIES NoTrace LoadedStays
CHECK_DEADLOCK FALSE
