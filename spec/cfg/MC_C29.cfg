SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,4}
  Off = 0
  N = 4
INVARIANTS TypeOK L29
CHECK_DEADLOCK FALSE
