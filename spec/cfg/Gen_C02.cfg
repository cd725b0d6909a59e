SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","conv","convert2","delete","copy"}
  Handles = {"a","b","c"}
  Dims = {1,2,3,4}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 8
CHECK_DEADLOCK FALSE
