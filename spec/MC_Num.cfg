SPECIFICATION Spec
INVARIANTS Binary Unary Folds
CHECK_DEADLOCK FALSE
