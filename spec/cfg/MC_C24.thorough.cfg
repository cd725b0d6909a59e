SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,5,6}
  Off = 2
  N = 4
INVARIANTS TypeOK L24
CHECK_DEADLOCK FALSE
