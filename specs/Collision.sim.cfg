SPECIFICATION Spec
CONSTANTS NSlots = 3 Clock = {0, 1, 2, 3, 4, 5, 6, 7, 300000000, 300000002} Delays = {0, 1, 2, 3, 9, 300000000} MaxOps = 25
VIEW View
INVARIANT NoDuplicates
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
