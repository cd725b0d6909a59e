SPECIFICATION Spec
CONSTANTS
  Ops = {"create","plane"}
  Handles = {"a","b","c"}
  Dims = {1,2}
  TypesUsed = {1}
  MaxDepth = 5
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P07
CHECK_DEADLOCK FALSE
