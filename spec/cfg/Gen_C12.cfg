SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"thresh","colour"}
  Steps = 14
CHECK_DEADLOCK FALSE
