SPECIFICATION Spec
CONSTANTS Fam = "shake" NN = 24 K = 2 T = 1 H = 2 D = 2 Sizes = {0, 61, 4000, 9999} Msgs = 2 Mode = "full" Points = {0, 48, 427, 1500}
INVARIANTS Refines Inductive
CHECK_DEADLOCK FALSE
