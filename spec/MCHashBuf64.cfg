SPECIFICATION Spec
CONSTANTS B = 64  LenB = 8  R = 136  MaxFed = 290  MaxOut = 8
INVARIANTS Buffered Padded PaddedSponge OneOutput
CHECK_DEADLOCK FALSE
