SPECIFICATION Spec
CONSTANTS MaxAdd = 1 MaxDrop = 1
INVARIANTS BoundOnce NothingIgnored SplitIrrelevant NeverMixed Emit
CHECK_DEADLOCK FALSE
