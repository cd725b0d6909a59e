SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"flip","trans","border"}
  Steps = 14
CHECK_DEADLOCK FALSE
