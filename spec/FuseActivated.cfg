SPECIFICATION Spec
CONSTANTS N = 4
 Emitting = FALSE
 Free = "activated"
INVARIANT Same Whole Emit
PROPERTY Smaller
CHECK_DEADLOCK FALSE
