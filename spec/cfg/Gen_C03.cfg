SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","range","conv"}
  Handles = {"a","b","c"}
  Dims = {2,3,4}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 5
CHECK_DEADLOCK FALSE
