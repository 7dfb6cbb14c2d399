SPECIFICATION Spec
CONSTANTS MaxOps = 4
VIEW View
INVARIANT InRange
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
