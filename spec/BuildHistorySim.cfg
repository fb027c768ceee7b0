SPECIFICATION Spec
CONSTANTS Depth = 7
 Emitting = TRUE
 Forget = FALSE
INVARIANT UpToDate Settled Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
