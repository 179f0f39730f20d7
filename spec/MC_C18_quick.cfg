SPECIFICATION Spec
CONSTANTS Rows = 3 Cols = 4 MaxSteps = 6
INVARIANTS ConstantReproduced Connected StrictTimes SomeTime Reversible Emit
CHECK_DEADLOCK FALSE
