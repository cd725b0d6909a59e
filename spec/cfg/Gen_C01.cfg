SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","delete"}
  Handles = {"a","b","c"}
  Dims = {1,1,2,3,4}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 7
CHECK_DEADLOCK FALSE
