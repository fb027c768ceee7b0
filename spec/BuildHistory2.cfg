SPECIFICATION Spec
CONSTANTS Depth = 5
 Emitting = FALSE
 Forget = FALSE
INVARIANT UpToDate Settled
CHECK_DEADLOCK FALSE
