SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Law = "utf8"
  Letters = {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 236, 237, 239, 240, 243, 244, 245, 255}
  MaxLen = 4
INVARIANT Holds
