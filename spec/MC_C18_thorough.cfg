SPECIFICATION Spec
CONSTANTS Rows = 5 Cols = 6 MaxSteps = 10
INVARIANTS ConstantReproduced Connected StrictTimes SomeTime Reversible Emit
CHECK_DEADLOCK FALSE
