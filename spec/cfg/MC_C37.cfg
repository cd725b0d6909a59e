SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,255}
  Off = 0
  N = 6
INVARIANTS TypeOK L37
CHECK_DEADLOCK FALSE
