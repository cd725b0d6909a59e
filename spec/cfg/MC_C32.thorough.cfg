SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,100,255}
  Off = 0
  N = 6
INVARIANTS TypeOK L32
CHECK_DEADLOCK FALSE
