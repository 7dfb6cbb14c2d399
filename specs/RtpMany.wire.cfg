SPECIFICATION ManySpec
CONSTANTS
  MaxEdits = 12
  MaxCsrc = 15
  Lens = {0, 1, 2, 3, 5}
  Mode = "wire"
CHECK_DEADLOCK FALSE
