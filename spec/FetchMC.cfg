SPECIFICATION Spec
INVARIANT Holds
PROPERTY Props
CHECK_DEADLOCK FALSE
