SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"gauss","lap","sobel","border"}
  Steps = 14
CHECK_DEADLOCK FALSE
