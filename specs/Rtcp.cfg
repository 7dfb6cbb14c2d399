SPECIFICATION Spec
CONSTANTS MaxEdits = 2
VIEW View
INVARIANT InsideApp
INVARIANT InsideBye
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
