SPECIFICATION Spec
INVARIANTS ChainsAgree WotsAgree XmssAgree ForsAgree
CHECK_DEADLOCK FALSE
