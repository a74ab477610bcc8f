CONSTANTS
 Saves = 3
 Chunks = 2
SPECIFICATION Spec
INVARIANTS NeverDamaged PrintIt
PROPERTIES NeverVanishes OldOrNew LaterSucceeds
CHECK_DEADLOCK FALSE
