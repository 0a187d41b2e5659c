SPECIFICATION Spec
INVARIANTS SidesAgree GateInv HandleInv SatInv PendInv ReplayInv
CHECK_DEADLOCK FALSE
