SPECIFICATION Spec
CONSTANTS MaxOps = 3
VIEW View
INVARIANT OneToOne
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
