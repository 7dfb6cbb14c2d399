SPECIFICATION SimSpec
CONSTANTS Alphabet <- Wide MaxLen = 10 MaxOps = 12
VIEW View
CONSTANT Runs = {1}
INVARIANTS Whole SpanRight
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
