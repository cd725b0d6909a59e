SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,3}
  Off = 1
  N = 8
INVARIANTS TypeOK L20
CHECK_DEADLOCK FALSE
