SPECIFICATION Spec
CONSTANTS MaxLinks = 3 Keep = 15
INVARIANTS OnePerLink AllSamples NothingElse Emit
PROPERTY Independent
CHECK_DEADLOCK FALSE
