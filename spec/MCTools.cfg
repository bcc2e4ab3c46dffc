SPECIFICATION Spec
INVARIANT Tooling
CHECK_DEADLOCK FALSE
