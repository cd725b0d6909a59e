SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","copy","conv","range","plane","delete","convert2","fill","save"}
  Handles = {"a","b","c"}
  Dims = {1,2,3}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 12
CHECK_DEADLOCK FALSE
