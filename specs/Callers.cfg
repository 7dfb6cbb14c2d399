CONSTANTS
  NCallers = 2
  Programs = {"request", "response", "via", "uri", "auth", "address"}
SPECIFICATION Spec
INVARIANT AsAlone
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
