SPECIFICATION Spec
CONSTANTS
  Vals = {0,98,99,100,101,103,355}
  Off = 100
  N = 4
INVARIANTS TypeOK L30
CHECK_DEADLOCK FALSE
