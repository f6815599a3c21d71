SPECIFICATION Spec
INVARIANT WF
INVARIANT Addressable
PROPERTY Props
CHECK_DEADLOCK FALSE
