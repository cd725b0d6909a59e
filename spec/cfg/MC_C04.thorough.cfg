SPECIFICATION Spec
CONSTANTS
  Ops = {"create","copy","copyto","fill","delete"}
  Handles = {"a","b","c"}
  Dims = {1,2}
  TypesUsed = {1}
  MaxDepth = 5
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P04
CHECK_DEADLOCK FALSE
