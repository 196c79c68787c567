SPECIFICATION Spec
CONSTANTS Fam = "sha2" NN = 24 K = 2 T = 2 H = 6 D = 3 Changes = 3
VIEW View
INVARIANTS Consistent Everything Accepts Rejects NewSums DigitsRight Addresses
CHECK_DEADLOCK FALSE
