SPECIFICATION Spec
CONSTANTS Depth = 4
 Emitting = FALSE
 Forget = FALSE
INVARIANT UpToDate Settled
CHECK_DEADLOCK FALSE
