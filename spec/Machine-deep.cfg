SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {64, 58, 33, 61, 59, 32, 35, 97}
  MaxLen = 7
  Widths = {2, 3}
  Unroll = 2
INVARIANT SameAsParse
INVARIANT SameInChunks
PROPERTY Stable
