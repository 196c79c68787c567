SPECIFICATION Spec
CONSTANTS Trees = {100, 200, 300, 400, 500, 600, 700, 800, 900, 632, 601, 832, 934, 1213, 1421, 1416, 1400, 1200, 1303, 1105, 1001}
INVARIANTS StackRight Right
CHECK_DEADLOCK FALSE
