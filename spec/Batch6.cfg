SPECIFICATION Spec
CONSTANTS NMAX = 20
          M = 6
          RULE = "design"
INVARIANTS Once Complete
PROPERTIES Exclusive Terminates
CHECK_DEADLOCK FALSE
