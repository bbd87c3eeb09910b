SPECIFICATION Spec
CONSTANT MaxN = 40
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
