SPECIFICATION Spec
CONSTANTS
  Vals = {0,32767,32768,32770}
  Off = 32768
  N = 3
INVARIANTS TypeOK L18b
CHECK_DEADLOCK FALSE
