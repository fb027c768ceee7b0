SPECIFICATION Spec
CONSTANTS N = 4
          RULE = "pre"
INVARIANTS NoRepeat Topological
CHECK_DEADLOCK FALSE
