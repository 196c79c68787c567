SPECIFICATION Spec
CONSTANT Blocks = 4
VIEW View
INVARIANTS OnlyWhatIsThere VerdictMeans ReturnsRight
CHECK_DEADLOCK FALSE
