SPECIFICATION Spec
CONSTANTS
  Vals = {0,7,255}
  Off = 0
  N = 9
INVARIANTS TypeOK L16
CHECK_DEADLOCK FALSE
