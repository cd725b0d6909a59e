SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","save","convert2","delete"}
  Handles = {"a","b"}
  Dims = {1,2,3}
  TypesUsed = {1,4}
  MaxDepth = 99
  Pick <- One
  Steps = 9
CHECK_DEADLOCK FALSE
