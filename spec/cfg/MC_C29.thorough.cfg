SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,4,5,6,7,8}
  Off = 2
  N = 4
INVARIANTS TypeOK L29
CHECK_DEADLOCK FALSE
