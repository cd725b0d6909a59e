SPECIFICATION Spec
CONSTANTS
  Vals = {0,1,2,3,50,84,85,86,127,128,129,200,253,254,255}
  Off = 0
  N = 3
INVARIANTS TypeOK L22
CHECK_DEADLOCK FALSE
