SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,3}
  Off = 1
  N = 6
INVARIANTS TypeOK L27b
CHECK_DEADLOCK FALSE
