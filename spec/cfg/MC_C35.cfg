SPECIFICATION Spec
CONSTANTS
  Vals = {0,1}
  Off = 0
  N = 3
INVARIANTS TypeOK L35
CHECK_DEADLOCK FALSE
