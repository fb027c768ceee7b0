SPECIFICATION Spec
CONSTANTS N = 2
          RULE = "shapes"
INVARIANTS Sound Wide
CHECK_DEADLOCK FALSE
