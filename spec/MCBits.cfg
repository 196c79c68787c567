SPECIFICATION Spec
CONSTANTS Ks = {1, 2, 3, 5, 14, 17, 22, 33, 35}
 Ts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
 Hs = {6622, 6307, 6817, 6408, 202, 402, 603, 3333, 1802, 6416, 1212, 6004}
INVARIANTS CutRight Enough LayerRight
CHECK_DEADLOCK FALSE
