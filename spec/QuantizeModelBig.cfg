SPECIFICATION Spec
CONSTANTS MaxM = 11
          Fine = 4
          MaxE = 5
INVARIANT Right
INVARIANT Emit
CHECK_DEADLOCK FALSE
