SPECIFICATION Spec
CONSTANTS
  Ops = {"create","copy","conv","range","plane","delete"}
  Handles = {"a","b"}
  Dims = {1,2}
  TypesUsed = {1}
  MaxDepth = 3
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTY P08
CHECK_DEADLOCK FALSE
