SPECIFICATION Spec
CONSTANTS Fam = "sha2" NN = 16 K = 2 T = 1 H = 2 D = 2 Sizes = {0, 41, 2000, 9999} Msgs = 2 Mode = "full"
 Points = {0, 41, 330, 680, 1200}
INVARIANTS Refines Inductive
CHECK_DEADLOCK FALSE
