SPECIFICATION Spec
CONSTANT Lens = "all"
INVARIANT Agree
CHECK_DEADLOCK FALSE
