SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {64, 61, 59, 32}
  MaxLen = 11
  Widths = {1, 2, 3, 4}
  Unroll = 2
INVARIANT SameAsParse
INVARIANT SameInChunks
PROPERTY Stable
