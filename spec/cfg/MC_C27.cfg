SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,3}
  Off = 1
  N = 4
INVARIANTS TypeOK L27
CHECK_DEADLOCK FALSE
