SPECIFICATION Spec
CONSTANTS N = 2
          Grid = 2
INVARIANT Divided
INVARIANT CountsAgree
INVARIANT Emit
CHECK_DEADLOCK FALSE
