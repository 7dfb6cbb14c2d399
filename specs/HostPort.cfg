SPECIFICATION Spec
CONSTANTS MaxOps = 2 Mode = "all"
VIEW View
INVARIANT PrintStable
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
