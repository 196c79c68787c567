SPECIFICATION Spec
CONSTANTS B = 128  LenB = 16  R = 136  MaxFed = 290  MaxOut = 300
INVARIANTS Buffered Padded PaddedSponge OneOutput
CHECK_DEADLOCK FALSE
