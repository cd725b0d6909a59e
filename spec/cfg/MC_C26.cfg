SPECIFICATION Spec
CONSTANTS
  Vals = {0,1}
  Off = 0
  N = 6
INVARIANTS TypeOK L26
CHECK_DEADLOCK FALSE
