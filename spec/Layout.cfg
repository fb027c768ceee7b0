SPECIFICATION Spec
CONSTANTS N = 3
          RULE = "design"
INVARIANTS Sound Wide
CHECK_DEADLOCK FALSE
