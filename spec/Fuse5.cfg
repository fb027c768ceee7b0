SPECIFICATION Spec
CONSTANTS N = 5
 Emitting = FALSE
 Free = "none"
INVARIANT Same Whole Emit
PROPERTY Smaller
CHECK_DEADLOCK FALSE
