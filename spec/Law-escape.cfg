SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "escape"
  Letters = {97, 59, 58, 32, 92, 115, 110, 13, 44, 11805}
  MaxLen = 5
INVARIANT Holds
