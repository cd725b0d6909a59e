SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","copy","copyto","fill","delete"}
  Handles = {"a","b","c"}
  Dims = {1,2}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 9
CHECK_DEADLOCK FALSE
