SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "bypass"
  Letters = {0}
  MaxLen = 6
INVARIANT Holds
