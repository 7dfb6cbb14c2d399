SPECIFICATION Spec
CONSTANTS
  Kinds = {"requestline", "statusline", "request", "response"}
  MaxOps = 2
  Rich = TRUE
  Doing = {"set", "whole", "parse"}
VIEW View
ACTION_CONSTRAINT EmitLast
CHECK_DEADLOCK FALSE
