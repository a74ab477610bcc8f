SPECIFICATION Spec
CONSTANTS GRID <- DefaultGrid
INVARIANTS DerivativeOfActivation DerivativeOfLoss Ranges MetricsSane Names
CHECK_DEADLOCK FALSE
