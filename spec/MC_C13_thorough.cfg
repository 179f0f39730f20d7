SPECIFICATION Spec
CONSTANTS MaxCalls = 3 MaxChanges = 2 Keep = 1
INVARIANTS SameAsFresh Emit
CHECK_DEADLOCK FALSE
