SPECIFICATION Spec
CONSTANTS MaxM = 5
          Fine = 2
          MaxE = 3
INVARIANT Right
INVARIANT Emit
CHECK_DEADLOCK FALSE
