CONSTANTS
  Layers = {0, 21}
  KeyPairs = {0, 511}
  Digits16 = {14}
  LeafBits <- SomeLeaves
SPECIFICATION Spec
VIEW View
INVARIANTS Right OneToOne
CHECK_DEADLOCK FALSE
