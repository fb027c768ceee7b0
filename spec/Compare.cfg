SPECIFICATION Spec
CONSTANTS COLS = 2
          ROWS = 1
          RULE = "design"
INVARIANTS Agree Largest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
