SPECIFICATION Spec
CONSTANTS B = 8  LenB = 2  R = 136  MaxFed = 2  MaxOut = 300
INVARIANTS Buffered Padded PaddedSponge OneOutput
CHECK_DEADLOCK FALSE
