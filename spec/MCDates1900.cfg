SPECIFICATION Spec
CONSTANTS FirstYear = 1900 LastYear = 1972
INVARIANTS Valid Counts Inverts Week Beyond Later Named
CHECK_DEADLOCK FALSE
