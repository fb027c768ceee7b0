SPECIFICATION Spec
CONSTANTS N = 3
 Emitting = TRUE
 Free = "none"
INVARIANT Same Whole Emit
PROPERTY Smaller
CHECK_DEADLOCK FALSE
