SPECIFICATION Spec
CONSTANTS MaxCalls = 4 MaxChanges = 1 Keep = 5
INVARIANTS SameAsFresh Emit
CHECK_DEADLOCK FALSE
