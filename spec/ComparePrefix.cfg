SPECIFICATION Spec
CONSTANTS COLS = 2
          ROWS = 1
          RULE = "prefix"
INVARIANTS Agree Largest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
