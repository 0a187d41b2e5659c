SPECIFICATION Spec
INVARIANT ModelInv
CHECK_DEADLOCK FALSE
