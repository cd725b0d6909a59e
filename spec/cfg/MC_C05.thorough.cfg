SPECIFICATION Spec
CONSTANTS
  Ops = {"create","save","convert2","delete"}
  Handles = {"a","b"}
  Dims = {1,2}
  TypesUsed = {1,4}
  MaxDepth = 5
  Pick <- All
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
INVARIANT C05Inv
PROPERTY P05
CHECK_DEADLOCK FALSE
