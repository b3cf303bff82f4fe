SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "builder"
  Letters = {0}
  MaxLen = 6
INVARIANT Holds
