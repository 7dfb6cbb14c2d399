SPECIFICATION Spec
CONSTANTS MaxEdits = 1 MaxCsrc = 15 Lens = {63, 64, 300, 1500, 16383, 16384} Mode = "build"
VIEW View
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
