SPECIFICATION Spec
CONSTANTS
  SHAPES <- CShapes
  ACTS <- CActs
  MAXSEL = 2
  WEIGHTS <- CWeights
  XS <- CXs
INVARIANTS HistoryFree UnknownClears Layout GradientIsDerivative
VIEW View
CHECK_DEADLOCK FALSE
