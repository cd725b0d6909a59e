SPECIFICATION Spec
CONSTANTS
  Ops = {"new","conv","range"}
  Handles = {"a","b"}
  Dims = {1,2,3}
  TypesUsed = {1}
  MaxDepth = 3
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
INVARIANT P21Inv
INVARIANT P21Same
PROPERTY P21
CHECK_DEADLOCK FALSE
