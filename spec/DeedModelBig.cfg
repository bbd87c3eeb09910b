SPECIFICATION Spec
CONSTANTS NO = 3
          NH = 3
VIEW View
INVARIANT Invs
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
