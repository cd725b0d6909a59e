SPECIFICATION GenSpec
CONSTANTS
  Ops = {"create","plane","convert2"}
  Handles = {"a","b","c"}
  Dims = {1,2,3}
  TypesUsed = {1}
  MaxDepth = 99
  Pick <- One
  Steps = 8
CHECK_DEADLOCK FALSE
