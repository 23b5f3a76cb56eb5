SPECIFICATION Spec
INVARIANT Holds
INVARIANT OnceHolds
CHECK_DEADLOCK FALSE
