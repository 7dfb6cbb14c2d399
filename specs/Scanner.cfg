SPECIFICATION Spec
CONSTANTS Alphabet <- Abc MaxLen = 3 MaxOps = 1
VIEW View
CONSTANT Runs = {1}
INVARIANTS Whole SpanRight
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
