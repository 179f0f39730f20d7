SPECIFICATION Spec
CONSTANTS MaxAdd = 2 MaxDrop = 1
INVARIANTS BoundOnce NothingIgnored SplitIrrelevant NeverMixed Emit
CHECK_DEADLOCK FALSE
