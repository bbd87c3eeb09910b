SPECIFICATION Spec
CONSTANTS N = 3
          Grid = 2
INVARIANT Divided
INVARIANT CountsAgree
INVARIANT Emit
CHECK_DEADLOCK FALSE
