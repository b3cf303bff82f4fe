SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "ping"
  Letters = {97, 58, 32, 35, 13, 64, 59}
  MaxLen = 4
INVARIANT Holds
