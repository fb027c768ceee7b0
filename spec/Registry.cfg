SPECIFICATION Spec
CONSTANTS Depth = 4
 Emitting = FALSE
 Overwrite = FALSE
INVARIANT Bound2
PROPERTY Kept
VIEW view
CHECK_DEADLOCK FALSE
