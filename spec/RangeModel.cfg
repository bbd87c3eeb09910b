SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxParts = 3
          MaxPart = 2
VIEW View
INVARIANT NoEmptyParts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
