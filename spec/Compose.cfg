SPECIFICATION Spec
INVARIANT OneFalse
INVARIANT Closed
INVARIANT Arities
CHECK_DEADLOCK FALSE
