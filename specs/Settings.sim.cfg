SPECIFICATION Spec
CONSTANTS MaxOps = 20
VIEW View
INVARIANT OneToOne
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
