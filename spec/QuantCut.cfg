SPECIFICATION Spec
CONSTANTS BITS = 2  EXTRA = 2
CONSTANT RoundShift <- CutShift
INVARIANTS Nearest Bounded Lossless Wraps Ring
CHECK_DEADLOCK FALSE
