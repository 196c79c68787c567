SPECIFICATION Spec
CONSTANTS Fam = "sha2" NN = 16 K = 1 T = 1 H = 2 D = 2 Sizes = {0, 1, 16, 41, 2000} Msgs = 2 Mode = "full" Points = {0, 41, 330, 680, 1200}
INVARIANTS Refines Inductive
CHECK_DEADLOCK FALSE
