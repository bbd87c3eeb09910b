SPECIFICATION Spec
CONSTANT MaxN = 16
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
