SPECIFICATION Spec
INVARIANT Proofs
CHECK_DEADLOCK FALSE
