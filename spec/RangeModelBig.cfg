SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxParts = 4
          MaxPart = 3
VIEW View
INVARIANT NoEmptyParts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
