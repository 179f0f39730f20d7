SPECIFICATION Spec
CONSTANTS P = 2 U = 2 D = 1 N = 3 MaxVer = 2 MaxSteps = 0 Gen = FALSE Keep = 1
INVARIANTS Complete CachedIsDelivered
PROPERTIES FailKeepsCache NoContactIfCached OthersUntouched CachedOnlyByCompletion
CHECK_DEADLOCK FALSE
