SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,100,255}
  Off = 0
  N = 4
INVARIANTS TypeOK L23 L23b L23d
CHECK_DEADLOCK FALSE
