SPECIFICATION Spec
CONSTANT N = 9
INVARIANTS TablesWide
CHECK_DEADLOCK FALSE
