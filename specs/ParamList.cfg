SPECIFICATION Spec
CONSTANTS NLists = 2 Names = {"a", "A", "b"} Looked <- LookedDef Vals <- ValsDef Seps = {","} MaxOps = 3
VIEW View
INVARIANTS SetKeepsPlace DeleteDrops
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
