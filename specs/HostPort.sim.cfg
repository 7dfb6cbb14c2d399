SPECIFICATION Spec
CONSTANTS MaxOps = 12 Mode = "edit"
VIEW View
INVARIANT PrintStable
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
