SPECIFICATION Spec
CONSTANT Lens = "some"
INVARIANT Agree
CHECK_DEADLOCK FALSE
