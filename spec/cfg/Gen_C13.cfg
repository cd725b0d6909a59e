SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"border","flip"}
  Steps = 14
CHECK_DEADLOCK FALSE
