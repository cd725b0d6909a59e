SPECIFICATION Spec
CONSTANTS
  Ops = {"create","range"}
  Handles = {"a","b"}
  Dims = {1,2,3}
  TypesUsed = {1}
  MaxDepth = 3
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P03
CHECK_DEADLOCK FALSE
