SPECIFICATION Spec
CONSTANTS
  Vals = {0,1}
  Off = 0
  N = 15
INVARIANTS TypeOK L17
CHECK_DEADLOCK FALSE
