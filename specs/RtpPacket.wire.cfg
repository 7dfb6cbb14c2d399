SPECIFICATION Spec
CONSTANTS MaxEdits = 2 MaxCsrc = 15 Lens = {0, 1, 2, 3, 5} Mode = "wire"
VIEW View
INVARIANT Sound
INVARIANT PaddingNeverPayload
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
