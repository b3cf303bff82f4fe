SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "say"
  Letters = {97, 59, 58, 32, 92, 115, 13, 10, 35, 44, 64, 61}
  MaxLen = 3
INVARIANT Holds
