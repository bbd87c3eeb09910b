SPECIFICATION Spec
CONSTANT MaxHandles = 4
VIEW View
INVARIANTS Agree OneValue
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
