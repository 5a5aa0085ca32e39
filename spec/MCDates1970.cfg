SPECIFICATION Spec
CONSTANTS FirstYear = 1970 LastYear = 2110
INVARIANTS Valid Counts Inverts Week Beyond Later Named
CHECK_DEADLOCK FALSE
