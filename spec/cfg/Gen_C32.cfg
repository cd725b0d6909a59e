SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"pyr","gauss"}
  Steps = 14
CHECK_DEADLOCK FALSE
