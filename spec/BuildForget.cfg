SPECIFICATION Spec
CONSTANTS Depth = 4
 Emitting = FALSE
 Forget = TRUE
INVARIANT UpToDate Settled
CHECK_DEADLOCK FALSE
