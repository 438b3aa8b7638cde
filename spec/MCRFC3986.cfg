SPECIFICATION Spec
CONSTANT N = 4
VIEW View
INVARIANT Parts SameDots NoDots Again KeepsFragment
CHECK_DEADLOCK FALSE
