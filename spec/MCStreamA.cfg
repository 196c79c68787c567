SPECIFICATION Spec
CONSTANTS Fam = "sha2" NN = 16 K = 3 T = 4 H = 6 D = 2 Sizes = {16} Msgs = 12 Mode = "pass" Points = {}
INVARIANTS Refines Inductive
CHECK_DEADLOCK FALSE
