SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
