SPECIFICATION Spec
CONSTANTS Keys = {160102, 240202, 320102, 160311, 1160102, 1240102, 1320201, 1160303}
INVARIANTS CleanFailure Success Fails NotEarly
CHECK_DEADLOCK FALSE
