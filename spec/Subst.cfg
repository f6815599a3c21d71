SPECIFICATION Spec
INVARIANT NoDup
CHECK_DEADLOCK FALSE
