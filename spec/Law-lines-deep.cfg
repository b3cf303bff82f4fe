SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "lines"
  Letters = {0}
  MaxLen = 0
INVARIANT Holds
