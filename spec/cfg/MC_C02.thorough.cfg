SPECIFICATION Spec
CONSTANTS
  Ops = {"create","conv","convert2","delete"}
  Handles = {"a","b"}
  Dims = {1,2,3}
  TypesUsed = {1}
  MaxDepth = 6
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P02
CHECK_DEADLOCK FALSE
