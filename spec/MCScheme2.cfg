SPECIFICATION Spec
CONSTANTS Fam = "shake" NN = 16 K = 2 T = 2 H = 4 D = 2 Changes = 2
VIEW View
INVARIANTS Consistent Everything Accepts Rejects NewSums DigitsRight Addresses
CHECK_DEADLOCK FALSE
