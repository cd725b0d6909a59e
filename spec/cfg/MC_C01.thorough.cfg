SPECIFICATION Spec
CONSTANTS
  Ops = {"create","delete"}
  Handles = {"a","b"}
  Dims = {0,1,2,3}
  TypesUsed = {1,4,6}
  MaxDepth = 4
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P01
CHECK_DEADLOCK FALSE
