SPECIFICATION Spec
CONSTANTS N = 3
          Bound = 2
INVARIANTS RuleAdmissible Emit
PROPERTY FinalIsFinal
CHECK_DEADLOCK FALSE
