SPECIFICATION Spec
CONSTANTS Depth = 9
 Emitting = TRUE
INVARIANT NoOverwrite Origin Emit
CHECK_DEADLOCK FALSE
CONSTRAINT Shape
