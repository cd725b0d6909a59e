SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3}
  Off = 2
  N = 9
INVARIANTS TypeOK L27
CHECK_DEADLOCK FALSE
