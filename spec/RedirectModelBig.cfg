SPECIFICATION Spec
CONSTANT MaxHandles = 5
VIEW View
INVARIANTS Agree OneValue
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
