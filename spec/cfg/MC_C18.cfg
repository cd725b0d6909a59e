SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,200,255}
  Off = 0
  N = 4
INVARIANTS TypeOK L18
CHECK_DEADLOCK FALSE
