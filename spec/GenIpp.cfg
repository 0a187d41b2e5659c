SPECIFICATION Spec
INVARIANTS ModelInv
CHECK_DEADLOCK FALSE
