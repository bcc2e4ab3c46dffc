SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Inv
INVARIANT Agree
PROPERTY Props
CHECK_DEADLOCK FALSE
