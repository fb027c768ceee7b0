SPECIFICATION Spec
CONSTANTS N = 4
          MAXOPS = 2
          RULE = "all"
INVARIANTS ReadsIntact LiveIntact LiveApart OutputThere Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
