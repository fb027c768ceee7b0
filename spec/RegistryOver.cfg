SPECIFICATION Spec
CONSTANTS Depth = 4
 Emitting = FALSE
 Overwrite = TRUE
INVARIANT Bound2
PROPERTY Kept
VIEW view
CHECK_DEADLOCK FALSE
