SPECIFICATION Spec
CONSTANTS
  What = "table"
  Sizes = {9, 17, 65, 300}
CHECK_DEADLOCK FALSE
