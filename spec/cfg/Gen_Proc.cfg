SPECIFICATION GenSpec
CONSTANTS
  Kinds = {"flip","trans","border","thresh","lap","sobel","rank","integral","gauss","pyr","colour","morph"}
  Steps = 20
CHECK_DEADLOCK FALSE
