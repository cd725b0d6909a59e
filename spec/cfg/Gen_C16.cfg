SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"rank","integral"}
  Steps = 14
CHECK_DEADLOCK FALSE
