SPECIFICATION Spec
CONSTANTS
  Vals = {0,2,3,4,5,8}
  Off = 3
  N = 4
INVARIANTS TypeOK L25
CHECK_DEADLOCK FALSE
