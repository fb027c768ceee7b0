SPECIFICATION Spec
CONSTANTS N = 4
          RULE = "design"
INVARIANTS Sound Wide
CHECK_DEADLOCK FALSE
