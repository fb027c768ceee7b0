SPECIFICATION Spec
CONSTANTS BITS = 3  EXTRA = 2
INVARIANTS Nearest Bounded Lossless Wraps Ring
CHECK_DEADLOCK FALSE
