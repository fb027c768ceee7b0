SPECIFICATION Spec
CONSTANTS N = 3
 Emitting = FALSE
 Free = "linear"
INVARIANT Same Whole Emit
PROPERTY Smaller
CHECK_DEADLOCK FALSE
