SPECIFICATION Spec
INVARIANTS TypeOk EverythingFits EverythingWide AtLeastOne Level1
CHECK_DEADLOCK FALSE
