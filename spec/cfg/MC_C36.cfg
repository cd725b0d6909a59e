SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,4,5,6,7,8}
  Off = 4
  N = 2
INVARIANTS TypeOK L36
CHECK_DEADLOCK FALSE
