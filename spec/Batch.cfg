SPECIFICATION Spec
CONSTANTS NMAX = 13
          M = 4
          RULE = "design"
INVARIANTS Once Complete
PROPERTIES Exclusive Terminates
CHECK_DEADLOCK FALSE
