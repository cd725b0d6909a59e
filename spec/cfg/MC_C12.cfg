SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,128,255}
  Off = 0
  N = 4
INVARIANTS TypeOK L12 L12o
CHECK_DEADLOCK FALSE
