SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"colour","flip"}
  Steps = 14
CHECK_DEADLOCK FALSE
