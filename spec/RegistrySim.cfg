SPECIFICATION Spec
CONSTANTS Depth = 9
 Emitting = TRUE
 Overwrite = FALSE
INVARIANT Bound2 Emit
CONSTRAINT Shape
CHECK_DEADLOCK FALSE
