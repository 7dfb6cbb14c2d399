SPECIFICATION Spec
CONSTANTS NSlots = 2 Clock = {0, 1, 2, 3} Delays = {0, 1, 2, 9} MaxOps = 3
VIEW View
INVARIANT NoDuplicates
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
