SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,4,5,6,7}
  Off = 3
  N = 4
INVARIANTS TypeOK L34
CHECK_DEADLOCK FALSE
