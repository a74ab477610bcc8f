SPECIFICATION Spec
CONSTANTS
  SHAPES <- CShapes
  ACTS <- CActs
  MAXSEL = 0
  WEIGHTS <- CWeights
  XS <- CXs
INVARIANTS Layout ForwardShape
VIEW View
CHECK_DEADLOCK FALSE
