SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,127,128,254,255}
  Off = 0
  N = 3
INVARIANTS TypeOK L22
CHECK_DEADLOCK FALSE
