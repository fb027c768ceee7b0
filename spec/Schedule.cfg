SPECIFICATION Spec
CONSTANTS N = 4
          RULE = "post"
INVARIANTS NoRepeat Topological Complete FrontValid
PROPERTY Terminates
CHECK_DEADLOCK FALSE
