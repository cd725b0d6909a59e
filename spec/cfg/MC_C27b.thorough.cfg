SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,5}
  Off = 2
  N = 6
INVARIANTS TypeOK L27b
CHECK_DEADLOCK FALSE
