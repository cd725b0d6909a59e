SPECIFICATION GenSpec
CONSTANTS
  Ops = {"new","create","set","copy","conv","range","save"}
  Handles = {"a","b","c"}
  Dims = {1,2,3}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 12
CHECK_DEADLOCK FALSE
