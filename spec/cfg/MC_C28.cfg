SPECIFICATION Spec
CONSTANTS
  Vals = {0,3}
  Off = 0
  N = 6
INVARIANTS TypeOK L28
CHECK_DEADLOCK FALSE
