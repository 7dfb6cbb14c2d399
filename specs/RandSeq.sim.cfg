SPECIFICATION Spec
CONSTANTS MaxOps = 60
VIEW View
INVARIANT InRange
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
