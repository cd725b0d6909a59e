SPECIFICATION Spec
CONSTANTS
  Ops = {"new","create","set","copy"}
  Handles = {"a","b"}
  Dims = {0,1,2}
  TypesUsed = {1,4}
  MaxDepth = 2
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
INVARIANT P21Inv
INVARIANT P21Same
PROPERTY P21
CHECK_DEADLOCK FALSE
