SPECIFICATION Spec
CONSTANTS P = 2 U = 2 D = 1 N = 2 MaxVer = 2 MaxSteps = 6 Gen = TRUE Keep = 250
INVARIANTS Complete CachedIsDelivered Emit
PROPERTIES FailKeepsCache NoContactIfCached OthersUntouched CachedOnlyByCompletion
CHECK_DEADLOCK FALSE
