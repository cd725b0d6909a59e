SPECIFICATION Spec
CONSTANTS
  Ops = {"new","save","conv"}
  Handles = {"a","b"}
  Dims = {1,2}
  TypesUsed = {1}
  MaxDepth = 5
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
INVARIANT P21Inv
INVARIANT P21Same
PROPERTY P21
CHECK_DEADLOCK FALSE
