SPECIFICATION Spec
CONSTANTS N = 4
 Emitting = TRUE
 Free = "none"
INVARIANT Same Whole Emit
PROPERTY Smaller
CHECK_DEADLOCK FALSE
