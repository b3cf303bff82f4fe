SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "backoff"
  Letters = {0, 1, 2, 3, 7, 10, 100}
  MaxLen = 3
INVARIANT Holds
