SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"good", "old", "hang"}
  TrustStores = {"AB"}
  Tries <- TlsTries
  MaxPeers = 3
  MaxOps = 4
ACTION_CONSTRAINT Emit
INVARIANT OnlyTwitch
INVARIANT Authenticated
INVARIANT Served
INVARIANT Separate
INVARIANT Sound
INVARIANT Live
