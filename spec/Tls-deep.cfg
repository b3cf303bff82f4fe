SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"good", "goodB", "wild", "unknown", "forged", "host", "old", "gap", "stolen", "plain", "hang"}
  TrustStores = {"AB", "C"}
  Tries <- TlsTries
  MaxPeers = 3
  MaxOps = 4
INVARIANT OnlyTwitch
INVARIANT Authenticated
INVARIANT Served
INVARIANT Separate
INVARIANT Sound
INVARIANT Live
