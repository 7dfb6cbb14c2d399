SPECIFICATION Spec
CONSTANTS NLists = 3 Names = {"a", "A", "b", "tag", "Tag"} Looked <- LookedDef Vals <- ValsSim Seps = {",", "; ", ";"} MaxOps = 20
VIEW View
INVARIANTS SetKeepsPlace DeleteDrops
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
