SPECIFICATION Spec
CONSTANTS Depth = 5
 Emitting = FALSE
VIEW view
INVARIANT NoOverwrite Origin
PROPERTY Untouched
CHECK_DEADLOCK FALSE
