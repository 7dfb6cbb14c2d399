SPECIFICATION Spec
CONSTANTS Alphabet <- Small MaxLen = 2 MaxOps = 2
VIEW View
CONSTANT Runs = {1}
INVARIANTS Whole SpanRight
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
