SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,5}
  Off = 0
  N = 4
INVARIANTS TypeOK L25
CHECK_DEADLOCK FALSE
