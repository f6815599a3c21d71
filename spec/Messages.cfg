SPECIFICATION Spec
INVARIANT Count
PROPERTY Props
CHECK_DEADLOCK FALSE
