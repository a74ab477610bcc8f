SPECIFICATION Spec
CONSTANT STEPS = 4
INVARIANTS Rate Count Velocity Position Nesterov Moments ConstantAdam Sound
CHECK_DEADLOCK FALSE
