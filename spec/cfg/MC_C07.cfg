SPECIFICATION Spec
CONSTANTS
  Ops = {"create","plane"}
  Handles = {"a","b"}
  Dims = {1,2}
  TypesUsed = {1,4}
  MaxDepth = 3
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P07
CHECK_DEADLOCK FALSE
