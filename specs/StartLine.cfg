SPECIFICATION Spec
CONSTANTS
  Kinds = {"requestline", "statusline", "request", "response"}
  MaxOps = 2
  Rich = FALSE
  Doing = {"set", "whole", "parse"}
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
