SPECIFICATION Spec
CONSTANTS N = 4
          MAXOPS = 2
          RULE = "first"
INVARIANTS ReadsIntact LiveIntact LiveApart OutputThere Bounded
CHECK_DEADLOCK FALSE
