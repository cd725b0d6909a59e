SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,100,127}
  Off = 0
  N = 4
INVARIANTS TypeOK L33
CHECK_DEADLOCK FALSE
