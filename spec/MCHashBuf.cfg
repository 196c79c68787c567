SPECIFICATION Spec
CONSTANTS B = 8  LenB = 2  R = 4  MaxFed = 27  MaxOut = 13
INVARIANTS Buffered Padded PaddedSponge OneOutput
CHECK_DEADLOCK FALSE
