SPECIFICATION Spec
CONSTANTS
  Vals = {0,2,3,102}
  Off = 2
  N = 4
INVARIANTS TypeOK L30
CHECK_DEADLOCK FALSE
