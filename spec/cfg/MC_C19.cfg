SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,4,5,6}
  Off = 0
  N = 4
INVARIANTS TypeOK L19
CHECK_DEADLOCK FALSE
