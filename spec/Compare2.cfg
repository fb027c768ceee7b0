SPECIFICATION Spec
CONSTANTS COLS = 1
          ROWS = 2
          RULE = "design"
INVARIANTS Agree Largest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
