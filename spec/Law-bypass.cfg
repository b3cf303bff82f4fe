SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "bypass"
  Letters = {0}
  MaxLen = 5
INVARIANT Holds
