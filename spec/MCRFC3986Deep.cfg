SPECIFICATION Spec
CONSTANT N = 6
VIEW View
INVARIANT Parts SameDots NoDots Again KeepsFragment
CHECK_DEADLOCK FALSE
