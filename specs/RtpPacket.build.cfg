SPECIFICATION Spec
CONSTANTS MaxEdits = 2 MaxCsrc = 15 Lens = {0, 1, 2, 3, 5} Mode = "build"
VIEW View
INVARIANT RoundTrip
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
