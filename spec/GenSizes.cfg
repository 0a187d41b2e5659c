SPECIFICATION Spec
INVARIANTS SatInv
CHECK_DEADLOCK FALSE
