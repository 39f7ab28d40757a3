SPECIFICATION Spec
INVARIANT Inv
CONSTANT WireOf <- TraceWire
CHECK_DEADLOCK FALSE
