SPECIFICATION Spec
CONSTANTS Fam = "sha2" NN = 16 K = 2 T = 2 H = 4 D = 2 Changes = 3
VIEW View
INVARIANTS Consistent Everything Accepts Rejects NewSums DigitsRight Addresses
CHECK_DEADLOCK FALSE
