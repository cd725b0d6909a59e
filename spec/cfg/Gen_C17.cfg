SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"morph","thresh"}
  Steps = 14
CHECK_DEADLOCK FALSE
