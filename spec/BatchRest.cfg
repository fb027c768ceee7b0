SPECIFICATION Spec
CONSTANTS NMAX = 7
          M = 3
          RULE = "rest"
INVARIANTS Once Complete
PROPERTIES Exclusive Terminates
CHECK_DEADLOCK FALSE
