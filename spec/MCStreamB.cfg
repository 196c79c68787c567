SPECIFICATION Spec
CONSTANTS Fam = "shake" NN = 16 K = 2 T = 3 H = 12 D = 3 Sizes = {16} Msgs = 12 Mode = "pass" Points = {}
INVARIANTS Refines Inductive
CHECK_DEADLOCK FALSE
