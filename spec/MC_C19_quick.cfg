SPECIFICATION Spec
CONSTANTS MaxLinks = 2 Keep = 1
INVARIANTS OnePerLink AllSamples NothingElse Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE
