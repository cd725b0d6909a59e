SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3}
  Off = 0
  N = 6
INVARIANTS TypeOK L14 L14b
CHECK_DEADLOCK FALSE
