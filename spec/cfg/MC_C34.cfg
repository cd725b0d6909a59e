SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,3,5}
  Off = 2
  N = 4
INVARIANTS TypeOK L34
CHECK_DEADLOCK FALSE
