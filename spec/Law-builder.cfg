SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "builder"
  Letters = {0}
  MaxLen = 4
INVARIANT Holds
